"""symx: a small symbolic executor for the Python sources of christoph2/objutils."""
