"""Settings that make no difference to texts of ordinary size."""
KINDS = ['statement', 'schema_element_definition', 'table_element_definition', 'column_constraint_definition', 'column_reference', 'storage_parameter', 'set_clause', 'with_element', 'select_element', 'table_reference',
         'grouping_element', 'ordering_element', 'field_definition', 'row_expression', 'scalar_expression', 'when_clause', 'string_literal_concatenation', 'privilege_action', 'privilege_object', 'privilege_user']
HUGE = [1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1]


def every(n):
    return ','.join('l%s=%d' % (k, n) for k in KINDS)


# settings; whether the tree is measured; whether descriptions are on
IDLE = [
    ('', False, True),
    ('n1000000', True, True),
    ('d1000000', True, True),
    (every(1000000), False, True),
    ('n4294967296,d18446744073709551615,m0', True, True),
    ('k', False, True),
    (every((1 << 64) - 1) + ',m1000', False, True),
    ('n18446744073709551615,' + every(1 << 31), True, True),
    ('k,n50000,d40000', True, True),
    ('c0', False, False),
    ('c0,d2147483648', True, False),
    ('m3,n0,d0,' + every(0), False, True),
]


def idle(i, desc=False):
    """setting number i; desc: only those with descriptions."""
    xs = [x for x in IDLE if x[2]] if desc else IDLE
    return xs[i % len(xs)]


def huge(i):
    return HUGE[i % len(HUGE)]
