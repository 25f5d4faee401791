HOOKS = {}
NA = {}
