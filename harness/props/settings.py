from __future__ import absolute_import, division, print_function

import session

E = session.EDITS
SESSIONS = {
    'C08': {'ops': E + [('split', 8), ('slice', 6), ('stretch', 1), ('quantize', 1)],
            'kinds': [None, 'f', 'ft', 'fsd'], 'length': 14},
    'C09': {'ops': E + [('overlap', 8), ('align', 8), ('stretch', 1), ('silences', 1), ('legato', 1)],
            'kinds': [None, 'f', 'fs', 'ft', 'n'], 'length': 12},
    'C10': {'ops': E + [('silences', 6), ('filled', 6), ('align', 1), ('overlap', 1)],
            'kinds': [None, 'f', 'fs', 'n', 't', 'ft'], 'length': 10},
    'C11': {'ops': E + [('legato', 8), ('previous', 5), ('overlap', 2), ('align', 1)],
            'kinds': [None, 'f', 'n', 't'], 'length': 12},
    'C12': {'ops': E + [('quantize', 6), ('stretch', 4), ('transpose', 4), ('bar', 3)],
            'kinds': [None, 'f', 'ft', 'n'], 'length': 14},
    'C13': {'ops': E + [('with', 5), ('without', 5), ('pitch', 3), ('active', 4), ('starting', 4), ('identical', 4),
                        ('tags', 3), ('set', 1), ('instant', 2)],
            'kinds': [None, 'f', 'ft', 'td', 'ftn', 'fn', 'n', 'fsd'], 'length': 25},
}
