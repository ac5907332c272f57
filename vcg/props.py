PROPS = {'C%02d' % i: {} for i in list(range(1, 16)) + [17]}
PROPS['C15']['l2'] = False
