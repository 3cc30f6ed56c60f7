"""helpers of loop contracts (symbolic)"""

def the(v, loc, role):
    """the only local of the loop with that role (see vc/interp.py loop_roles); the locals' names do not matter"""
    if '#' + role not in loc or len(loc['#' + role]) != 1:
        v.unsupported('loop contract: not exactly one local is %s' % role)
    return loc['#' + role][0]
