"""Names of numbers in DWARF debugging information, from the headers of elfutils and LLVM."""

NAMES = {
    "Tag": {
        0: ('null', 'padding'),
        1: ('array_type',),
        2: ('class_type',),
        3: ('entry_point',),
        4: ('enumeration_type',),
        5: ('formal_parameter',),
        8: ('imported_declaration',),
        10: ('label',),
        11: ('lexical_block',),
        13: ('member',),
        15: ('pointer_type',),
        16: ('reference_type',),
        17: ('compile_unit',),
        18: ('string_type',),
        19: ('structure_type',),
        21: ('subroutine_type',),
        22: ('typedef',),
        23: ('union_type',),
        24: ('unspecified_parameters',),
        25: ('variant',),
        26: ('common_block',),
        27: ('common_inclusion',),
        28: ('inheritance',),
        29: ('inlined_subroutine',),
        30: ('module',),
        31: ('ptr_to_member_type',),
        32: ('set_type',),
        33: ('subrange_type',),
        34: ('with_stmt',),
        35: ('access_declaration',),
        36: ('base_type',),
        37: ('catch_block',),
        38: ('const_type',),
        39: ('constant',),
        40: ('enumerator',),
        41: ('file_type',),
        42: ('friend',),
        43: ('namelist',),
        44: ('namelist_item',),
        45: ('packed_type',),
        46: ('subprogram',),
        47: ('template_type_param', 'template_type_parameter'),
        48: ('template_value_param', 'template_value_parameter'),
        49: ('thrown_type',),
        50: ('try_block',),
        51: ('variant_part',),
        52: ('variable',),
        53: ('volatile_type',),
        54: ('dwarf_procedure',),
        55: ('restrict_type',),
        56: ('interface_type',),
        57: ('namespace',),
        58: ('imported_module',),
        59: ('unspecified_type',),
        60: ('partial_unit',),
        61: ('imported_unit',),
        63: ('condition',),
        64: ('shared_type',),
        65: ('type_unit',),
        66: ('rvalue_reference_type',),
        67: ('template_alias',),
        71: ('atomic_type',),
        0x4080: ('lo_user',),
        0x4081: ('MIPS_loop',),
        0x4090: ('HP_array_descriptor',),
        0x4091: ('HP_Bliss_field',),
        0x4092: ('HP_Bliss_field_set',),
        0x4101: ('format_label',),
        0x4102: ('function_template',),
        0x4103: ('class_template',),
        0x4104: ('GNU_BINCL',),
        0x4105: ('GNU_EINCL',),
        0x4106: ('GNU_template_template_param',),
        0x4107: ('GNU_template_parameter_pack',),
        0x4108: ('GNU_formal_parameter_pack',),
        0x4109: ('GNU_call_site',),
        0x410a: ('GNU_call_site_parameter',),
        0x8765: ('UPC_shared_type', 'upc_shared_type'),
        0x8766: ('UPC_strict_type', 'upc_strict_type'),
        0x8767: ('UPC_relaxed', 'upc_relaxed_type'),
        0xa000: ('PGI_kanji_type',),
        0xa020: ('PGI_interface_block',),
        0xffff: ('hi_user',),
    },
    "AttributeEncoding": {
        1: ('sibling',),
        2: ('location',),
        3: ('name',),
        9: ('ordering',),
        10: ('subscr_data',),
        11: ('byte_size',),
        12: ('bit_offset',),
        13: ('bit_size',),
        15: ('element_list',),
        16: ('stmt_list',),
        17: ('low_pc',),
        18: ('high_pc',),
        19: ('language',),
        20: ('member',),
        21: ('discr',),
        22: ('discr_value',),
        23: ('visibility',),
        24: ('import',),
        25: ('string_length',),
        26: ('common_reference',),
        27: ('comp_dir',),
        28: ('const_value',),
        29: ('containing_type',),
        30: ('default_value',),
        32: ('inline',),
        33: ('is_optional',),
        34: ('lower_bound',),
        37: ('producer',),
        39: ('prototyped',),
        42: ('return_addr',),
        44: ('start_scope',),
        46: ('bit_stride',),
        47: ('upper_bound',),
        49: ('abstract_origin',),
        50: ('accessibility',),
        51: ('address_class',),
        52: ('artificial',),
        53: ('base_types',),
        54: ('calling_convention',),
        55: ('count',),
        56: ('data_member_location',),
        57: ('decl_column',),
        58: ('decl_file',),
        59: ('decl_line',),
        60: ('declaration',),
        61: ('discr_list',),
        62: ('encoding',),
        63: ('external',),
        64: ('frame_base',),
        65: ('friend',),
        66: ('identifier_case',),
        67: ('macro_info',),
        68: ('namelist_item',),
        69: ('priority',),
        70: ('segment',),
        71: ('specification',),
        72: ('static_link',),
        73: ('type',),
        74: ('use_location',),
        75: ('variable_parameter',),
        76: ('virtuality',),
        77: ('vtable_elem_location',),
        78: ('allocated',),
        79: ('associated',),
        80: ('data_location',),
        81: ('byte_stride',),
        82: ('entry_pc',),
        83: ('use_UTF8',),
        84: ('extension',),
        85: ('ranges',),
        86: ('trampoline',),
        87: ('call_column',),
        88: ('call_file',),
        89: ('call_line',),
        90: ('description',),
        91: ('binary_scale',),
        92: ('decimal_scale',),
        93: ('small',),
        94: ('decimal_sign',),
        95: ('digit_count',),
        96: ('picture_string',),
        97: ('mutable',),
        98: ('threads_scaled',),
        99: ('explicit',),
        100: ('object_pointer',),
        101: ('endianity',),
        102: ('elemental',),
        103: ('pure',),
        104: ('recursive',),
        105: ('signature',),
        106: ('main_subprogram',),
        107: ('data_bit_offset',),
        108: ('const_expr',),
        109: ('enum_class',),
        110: ('linkage_name',),
        111: ('string_length_bit_size',),
        112: ('string_length_byte_size',),
        113: ('rank',),
        114: ('str_offsets_base',),
        115: ('addr_base',),
        116: ('rnglists_base',),
        118: ('dwo_name',),
        119: ('reference',),
        120: ('rvalue_reference',),
        121: ('macros',),
        122: ('call_all_calls',),
        123: ('call_all_source_calls',),
        124: ('call_all_tail_calls',),
        125: ('call_return_pc',),
        126: ('call_value',),
        127: ('call_origin',),
        128: ('call_parameter',),
        129: ('call_pc',),
        130: ('call_tail_call',),
        131: ('call_target',),
        132: ('call_target_clobbered',),
        133: ('call_data_location',),
        134: ('call_data_value',),
        135: ('noreturn',),
        136: ('alignment',),
        137: ('export_symbols',),
        138: ('deleted',),
        139: ('defaulted',),
        140: ('loclists_base',),
        0x2000: ('lo_user',),
        0x2001: ('MIPS_fde',),
        0x2002: ('MIPS_loop_begin',),
        0x2003: ('MIPS_tail_loop_begin',),
        0x2004: ('MIPS_epilog_begin',),
        0x2005: ('MIPS_loop_unroll_factor',),
        0x2006: ('MIPS_software_pipeline_depth',),
        0x2007: ('MIPS_linkage_name',),
        0x2008: ('MIPS_stride',),
        0x2009: ('MIPS_abstract_name',),
        0x200a: ('MIPS_clone_origin',),
        0x200b: ('MIPS_has_inlines',),
        0x2010: ('HP_actuals_stmt_list', 'MIPS_assumed_shape_dopetype'),
        0x2011: ('HP_proc_per_section', 'MIPS_assumed_size'),
        0x2012: ('HP_raw_data_ptr',),
        0x2013: ('HP_pass_by_reference',),
        0x2014: ('HP_opt_level',),
        0x2015: ('HP_prof_version_id',),
        0x2016: ('HP_opt_flags',),
        0x2017: ('HP_cold_region_low_pc',),
        0x2018: ('HP_cold_region_high_pc',),
        0x2019: ('HP_all_variables_modifiable',),
        0x201a: ('HP_linkage_name',),
        0x201b: ('HP_prof_flags',),
        0x201f: ('HP_unit_name',),
        0x2020: ('HP_unit_size',),
        0x2021: ('HP_widened_byte_size',),
        0x2022: ('HP_definition_points',),
        0x2023: ('HP_default_location',),
        0x2029: ('HP_is_result_param',),
        0x2101: ('sf_names',),
        0x2102: ('src_info',),
        0x2103: ('mac_info',),
        0x2104: ('src_coords',),
        0x2105: ('body_begin',),
        0x2106: ('body_end',),
        0x2107: ('GNU_vector',),
        0x2108: ('GNU_guarded_by',),
        0x2109: ('GNU_pt_guarded_by',),
        0x210a: ('GNU_guarded',),
        0x210b: ('GNU_pt_guarded',),
        0x210c: ('GNU_locks_excluded',),
        0x210d: ('GNU_exclusive_locks_required',),
        0x210e: ('GNU_shared_locks_required',),
        0x210f: ('GNU_odr_signature',),
        0x2110: ('GNU_template_name',),
        0x2111: ('GNU_call_site_value',),
        0x2112: ('GNU_call_site_data_value',),
        0x2113: ('GNU_call_site_target',),
        0x2114: ('GNU_call_site_target_clobbered',),
        0x2115: ('GNU_tail_call',),
        0x2116: ('GNU_all_tail_call_sites',),
        0x2117: ('GNU_all_call_sites',),
        0x2118: ('GNU_all_source_call_sites',),
        0x2119: ('GNU_macros',),
        0x211a: ('GNU_deleted',),
        0x2130: ('GNU_dwo_name',),
        0x2131: ('GNU_dwo_id',),
        0x2132: ('GNU_ranges_base',),
        0x2133: ('GNU_addr_base',),
        0x2134: ('GNU_pubnames',),
        0x2135: ('GNU_pubtypes',),
        0x2136: ('GNU_discriminator',),
        0x2201: ('SUN_template', 'VMS_rtnbeg_pd_address'),
        0x2301: ('use_GNAT_descriptive_type',),
        0x2302: ('GNAT_descriptive_type',),
        0x2303: ('GNU_numerator',),
        0x2304: ('GNU_denominator',),
        0x2305: ('GNU_bias',),
        0x3210: ('UPC_threads_scaled', 'upc_threads_scaled'),
        0x3a00: ('PGI_lbase',),
        0x3a01: ('PGI_soffset',),
        0x3a02: ('PGI_lstride',),
        0x3fe1: ('APPLE_optimized',),
        0x3fe2: ('APPLE_flags',),
        0x3fe3: ('APPLE_isa',),
        0x3fe4: ('APPLE_block',),
        0x3fe5: ('APPLE_major_runtime_vers',),
        0x3fe6: ('APPLE_runtime_class',),
        0x3fe7: ('APPLE_omit_frame_ptr',),
        0x3fe8: ('APPLE_property_name',),
        0x3fe9: ('APPLE_property_getter',),
        0x3fea: ('APPLE_property_setter',),
        0x3feb: ('APPLE_property_attribute',),
        0x3fec: ('APPLE_objc_complete_type',),
        0x3fed: ('APPLE_property',),
        0x3fff: ('hi_user',),
    },
    "AttributeForm": {
        1: ('addr',),
        3: ('block2',),
        4: ('block4',),
        5: ('data2',),
        6: ('data4',),
        7: ('data8',),
        8: ('string',),
        9: ('block',),
        10: ('block1',),
        11: ('data1',),
        12: ('flag',),
        13: ('sdata',),
        14: ('strp',),
        15: ('udata',),
        16: ('ref_addr',),
        17: ('ref1',),
        18: ('ref2',),
        19: ('ref4',),
        20: ('ref8',),
        21: ('ref_udata',),
        22: ('indirect',),
        23: ('sec_offset',),
        24: ('exprloc',),
        25: ('flag_present',),
        31: ('line_strp',),
        32: ('ref_sig8',),
        33: ('implicit_const',),
    },
    "Operation": {
        3: ('addr',),
        6: ('deref',),
        8: ('const1u',),
        9: ('const1s',),
        10: ('const2u',),
        11: ('const2s',),
        12: ('const4u',),
        13: ('const4s',),
        14: ('const8u',),
        15: ('const8s',),
        16: ('constu',),
        17: ('consts',),
        18: ('dup',),
        19: ('drop',),
        20: ('over',),
        21: ('pick',),
        22: ('swap',),
        23: ('rot',),
        24: ('xderef',),
        25: ('abs',),
        26: ('and',),
        27: ('div',),
        28: ('minus',),
        29: ('mod',),
        30: ('mul',),
        31: ('neg',),
        32: ('not',),
        33: ('or',),
        34: ('plus',),
        35: ('plus_uconst',),
        36: ('shl',),
        37: ('shr',),
        38: ('shra',),
        39: ('xor',),
        40: ('bra',),
        41: ('eq',),
        42: ('ge',),
        43: ('gt',),
        44: ('le',),
        45: ('lt',),
        46: ('ne',),
        47: ('skip',),
        48: ('lit0',),
        49: ('lit1',),
        50: ('lit2',),
        51: ('lit3',),
        52: ('lit4',),
        53: ('lit5',),
        54: ('lit6',),
        55: ('lit7',),
        56: ('lit8',),
        57: ('lit9',),
        58: ('lit10',),
        59: ('lit11',),
        60: ('lit12',),
        61: ('lit13',),
        62: ('lit14',),
        63: ('lit15',),
        64: ('lit16',),
        65: ('lit17',),
        66: ('lit18',),
        67: ('lit19',),
        68: ('lit20',),
        69: ('lit21',),
        70: ('lit22',),
        71: ('lit23',),
        72: ('lit24',),
        73: ('lit25',),
        74: ('lit26',),
        75: ('lit27',),
        76: ('lit28',),
        77: ('lit29',),
        78: ('lit30',),
        79: ('lit31',),
        80: ('reg0',),
        81: ('reg1',),
        82: ('reg2',),
        83: ('reg3',),
        84: ('reg4',),
        85: ('reg5',),
        86: ('reg6',),
        87: ('reg7',),
        88: ('reg8',),
        89: ('reg9',),
        90: ('reg10',),
        91: ('reg11',),
        92: ('reg12',),
        93: ('reg13',),
        94: ('reg14',),
        95: ('reg15',),
        96: ('reg16',),
        97: ('reg17',),
        98: ('reg18',),
        99: ('reg19',),
        100: ('reg20',),
        101: ('reg21',),
        102: ('reg22',),
        103: ('reg23',),
        104: ('reg24',),
        105: ('reg25',),
        106: ('reg26',),
        107: ('reg27',),
        108: ('reg28',),
        109: ('reg29',),
        110: ('reg30',),
        111: ('reg31',),
        112: ('breg0',),
        113: ('breg1',),
        114: ('breg2',),
        115: ('breg3',),
        116: ('breg4',),
        117: ('breg5',),
        118: ('breg6',),
        119: ('breg7',),
        120: ('breg8',),
        121: ('breg9',),
        122: ('breg10',),
        123: ('breg11',),
        124: ('breg12',),
        125: ('breg13',),
        126: ('breg14',),
        127: ('breg15',),
        128: ('breg16',),
        129: ('breg17',),
        130: ('breg18',),
        131: ('breg19',),
        132: ('breg20',),
        133: ('breg21',),
        134: ('breg22',),
        135: ('breg23',),
        136: ('breg24',),
        137: ('breg25',),
        138: ('breg26',),
        139: ('breg27',),
        140: ('breg28',),
        141: ('breg29',),
        142: ('breg30',),
        143: ('breg31',),
        144: ('regx',),
        145: ('fbreg',),
        146: ('bregx',),
        147: ('piece',),
        148: ('deref_size',),
        149: ('xderef_size',),
        150: ('nop',),
        151: ('push_object_address',),
        152: ('call2',),
        153: ('call4',),
        154: ('call_ref',),
        155: ('form_tls_address',),
        156: ('call_frame_cfa',),
        157: ('bit_piece',),
        158: ('implicit_value',),
        159: ('stack_value',),
        160: ('implicit_pointer',),
        161: ('addrx',),
        162: ('constx',),
        163: ('entry_value',),
        164: ('const_type',),
        165: ('regval_type',),
        166: ('deref_type',),
        167: ('xderef_type',),
        168: ('convert',),
        169: ('reinterpret',),
        224: ('GNU_push_tls_address', 'lo_user'),
        225: ('HP_is_value',),
        226: ('HP_fltconst4',),
        227: ('HP_fltconst8',),
        228: ('HP_mod_range',),
        229: ('HP_unmod_range',),
        230: ('HP_tls',),
        240: ('APPLE_uninit', 'GNU_uninit'),
        241: ('GNU_encoded_addr',),
        242: ('GNU_implicit_pointer',),
        243: ('GNU_entry_value',),
        244: ('GNU_const_type',),
        245: ('GNU_regval_type',),
        246: ('GNU_deref_type',),
        247: ('GNU_convert',),
        248: ('PGI_omp_thread_num',),
        249: ('GNU_reinterpret',),
        250: ('GNU_parameter_ref',),
        251: ('GNU_addr_index',),
        252: ('GNU_const_index',),
        255: ('hi_user',),
    },
    "BaseTypeEncoding": {
        0: ('void',),
        1: ('address',),
        2: ('boolean',),
        3: ('complex_float',),
        4: ('float',),
        5: ('signed',),
        6: ('signed_char',),
        7: ('unsigned',),
        8: ('unsigned_char',),
        9: ('imaginary_float',),
        10: ('packed_decimal',),
        11: ('numeric_string',),
        12: ('edited',),
        13: ('signed_fixed',),
        14: ('unsigned_fixed',),
        15: ('decimal_float',),
        16: ('UTF',),
        128: ('HP_float80', 'lo_user'),
        129: ('HP_complex_float', 'HP_complex_float80'),
        130: ('HP_float128',),
        131: ('HP_complex_float128',),
        132: ('HP_floathpintel',),
        133: ('HP_imaginary_float80', 'HP_imaginary_float90'),
        134: ('HP_imaginary_float128',),
        136: ('HP_VAX_float',),
        137: ('HP_VAX_float_d',),
        138: ('HP_packed_decimal',),
        139: ('HP_zoned_decimal',),
        140: ('HP_edited',),
        141: ('HP_signed_fixed',),
        142: ('HP_unsigned_fixed',),
        143: ('HP_VAX_complex_float',),
        144: ('HP_VAX_complex_float_d',),
        255: ('hi_user',),
    },
    "DecimalSign": {
        1: ('unsigned',),
        2: ('leading_overpunch',),
        3: ('trailing_overpunch',),
        4: ('leading_separate',),
        5: ('trailing_separate',),
    },
    "Endianity": {
        0: ('default',),
        1: ('big',),
        2: ('little',),
        64: ('lo_user',),
        255: ('hi_user',),
    },
    "Accessibility": {
        1: ('public',),
        2: ('protected',),
        3: ('private',),
    },
    "Visibility": {
        1: ('local',),
        2: ('exported',),
        3: ('qualified',),
    },
    "Virtuality": {
        0: ('none',),
        1: ('virtual',),
        2: ('max', 'pure_virtual'),
    },
    "IdentifierCase": {
        0: ('case_sensitive',),
        1: ('up_case',),
        2: ('down_case',),
        3: ('case_insensitive',),
    },
    "CallingConvention": {
        1: ('normal',),
        2: ('program',),
        3: ('nocall',),
        64: ('GNU_renesas_sh', 'lo_user', 'renesas_sh'),
        65: ('GNU_borland_fastcall_i386', 'borland_fastcall_i386'),
        255: ('GDB_IBM_OpenCL', 'hi_user'),
    },
    "Inline": {
        0: ('not_inlined',),
        1: ('inlined',),
        2: ('declared_not_inlined',),
        3: ('declared_inlined',),
    },
    "Ordering": {
        0: ('row_major',),
        1: ('col_major',),
    },
    "DiscriminantDescriptor": {
        0: ('label',),
        1: ('range',),
    },
    "Languages": {
        1: ('C89',),
        2: ('C',),
        3: ('Ada83',),
        4: ('C_plus_plus',),
        5: ('Cobol74',),
        6: ('Cobol85',),
        7: ('Fortran77',),
        8: ('Fortran90',),
        9: ('Pascal83',),
        10: ('Modula2',),
        11: ('Java',),
        12: ('C99',),
        13: ('Ada95',),
        14: ('Fortran95',),
        15: ('PLI',),
        16: ('ObjC',),
        17: ('ObjC_plus_plus',),
        18: ('UPC',),
        19: ('D',),
        20: ('Python',),
        21: ('OpenCL',),
        22: ('Go',),
        23: ('Modula3',),
        24: ('Haskell',),
        25: ('C_plus_plus_03',),
        26: ('C_plus_plus_11',),
        27: ('OCaml',),
        28: ('Rust',),
        29: ('C11',),
        30: ('Swift',),
        31: ('Julia',),
        32: ('Dylan',),
        33: ('C_plus_plus_14',),
        34: ('Fortran03',),
        35: ('Fortran08',),
        36: ('RenderScript',),
        37: ('BLISS',),
        38: ('Kotlin',),
        39: ('Zig',),
        40: ('Crystal',),
        42: ('C_plus_plus_17',),
        43: ('C_plus_plus_20',),
        44: ('C17',),
        45: ('Fortran18',),
        46: ('Ada2005',),
        47: ('Ada2012',),
        48: ('HIP',),
        49: ('Assembly',),
        50: ('C_sharp',),
        51: ('Mojo',),
        52: ('GLSL',),
        53: ('GLSL_ES',),
        54: ('HLSL',),
        55: ('OpenCL_CPP',),
        56: ('CPP_for_OpenCL',),
        57: ('SYCL',),
        64: ('Ruby',),
        65: ('Move',),
        66: ('Hylo',),
        0x8001: ('Mips_Assembler',),
        0x8e57: ('GOOGLE_RenderScript',),
        0xb000: ('BORLAND_Delphi',),
    },
    "Children": {
        0: ('no',),
        1: ('yes',),
    },
    "UnitHeader": {
        1: ('compile',),
        2: ('type',),
        3: ('partial',),
        4: ('skeleton',),
        5: ('split_compile',),
        6: ('split_type',),
        128: ('lo_user',),
        255: ('hi_user',),
    },
    "LineNumberStandard": {
        1: ('copy',),
        2: ('advance_pc',),
        3: ('advance_line',),
        4: ('set_file',),
        5: ('set_column',),
        6: ('negate_stmt',),
        7: ('set_basic_block',),
        8: ('const_add_pc',),
        9: ('fixed_advance_pc',),
        10: ('set_prologue_end',),
        11: ('set_epilogue_begin',),
        12: ('set_isa',),
    },
    "LineNumberExtended": {
        1: ('end_sequence',),
        2: ('set_address',),
        3: ('define_file',),
        4: ('set_discriminator',),
        128: ('lo_user',),
        255: ('hi_user',),
    },
    "MacroInformation": {
        1: ('define',),
        2: ('undef',),
        3: ('start_file',),
        4: ('end_file',),
        255: ('vendor_ext',),
    },
    "ExceptionHeaderEncoding": {
        0: ('absptr',),
        1: ('uleb128',),
        2: ('udata2',),
        3: ('udata4',),
        4: ('udata8',),
        9: ('sleb128',),
        10: ('sdata2',),
        11: ('sdata4',),
        12: ('sdata8',),
        16: ('pcrel',),
        32: ('textrel',),
        48: ('datarel',),
        64: ('funcrel',),
        80: ('aligned',),
    },
    "CFIExtensions": {
        46: ('GNU_args_size', 'PRED_GNU_args_size'),
        47: ('GNU_negative_offset_extended',),
    },
    "Defaulted": {
        0: ('no',),
        1: ('in_class',),
        2: ('max', 'out_of_class'),
    },
}
