"""symx: a symbolic executor for Python source, used to decide the properties of /repo."""
