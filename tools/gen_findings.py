#!/usr/bin/env python3
'''known_findings.json from the list below (run by hand, never by a check).'''
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C01', 'fd51d45', 'reading a record with an empty payload failed'),
 ('C01', '45417c2', 'hwp5proc records failed to read binary data from standard input'),
 ('C02', 'd8320e7', 'a tree group beyond the end raised instead of selecting no records'),
 ('C26', '71dde4e', 'the JSON listing of no items was not valid JSON'),
 ('C30', '78ceefb', 'models of a tree group beyond the end raised'),
 ('C02', '9a4dcae', 'partially consumed lazy tree groups corrupted the following groups'),
 ('C26', '5ba5bd9', 'sized reads of generated streams lost or repeated data'),
 ('C25', '4ba925c', 'the incremental raw-deflate encoder could not be used or reset'),
 ('C25', '65f340e', 'the raw-deflate StreamReader returned short reads before the end'),
 ('C04', 'c0cdc78', 'values were made up from truncated data'),
 ('C04', '1b3d611', 'a missing flags field raised KeyError instead of ParseError'),
 ('C04', '4618ebf', 'inconsistent records raised arbitrary exceptions instead of ParseError'),
 ('C04', 'bb2cffb', 'parse_model_events() raised no ParseError on truncated records'),
 ('C33', '8bf25f3', 'levels below the base level produced a wrong tree'),
 ('C04', 'dfff407', 'invalid record levels escaped as a non-ParseError'),
 ('C04', 'd6d4aaa', 'a huge array count exhausted memory before any data was read'),
 ('C06', '05af353', 'reserved control characters 0x19-0x1d raised KeyError'),
 ('C04', 'bc2f3ec', 'a control character cut off at the end of the text was made up'),
]
exec(open(os.path.join(HERE, 'tools', 'more_findings.py')).read())
out = [dict(status='fixed', property=p, commit=c, what=w,
            line='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in FIXED]
out += [dict(status='open', property=p, id=i, what=w,
             line='KNOWN-FINDING: property=%s %s' % (p, w)) for p, i, w in OPEN]
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out), f, indent=1)
    f.write('\n')
