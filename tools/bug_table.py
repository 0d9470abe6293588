#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Planted bugs that were missed at first, and what was done about it.
missed = {
    'b03': 'C03_Reference: parameter references at any position',
    'b05': 'null, empty and absent forms of members next to every other member (rich modes)',
    'b10': 'C10_Pairs: all pairs of keywords',
    'b22': 'C01_MethodRune: methods with a non-ASCII letter',
    'b25': 'webhooks with empty but present Responses, extensions only',
    'b28': 'bad enumeration values one longer than valid ones, over an alphabet with space',
    'b29': 'mode "all" for objects that get an unknown key',
    'b38': 'C16_Response: several media types of one unit',
    'b41': 'C19_Units: units read back after the operation is added',
    'b43': 'C21_Parameter: every type with every collection format',
    'b45': 'C14_Enforced: explicit content types, form tags',
    'b50': 'C02_Alike: operations that share an ID, tags and texts',
    'b52': 'engine: all candidates are replayed, not the first six; maps with any keys encoded like Go 1.27 does',
    'b54': 'copies of the receiver are compared after With methods',
    'b56': 'C20: response headers of all types',
    'b57': 'C21: required:"false" next to collection formats',
    'b58': 'C23: properties of JSON-encoded parameters',
    'b60': 'C25: components edited by hand before continuing (C20_Registered caught it at once)',
    'b64': 'C18_Bytes: texts of arbitrary bytes',
    'b66': 'C13: parameter names in both letter cases',
    'b70': 'C07: unknown keys with values that are valid for pattern keys',
    'b72': 'C04: webhooks preset with references, operations or nothing',
    'b73': 'C01: names, literals and regexps over all printable characters',
    'b75': 'C13_Mapping: mappings set twice, and set to nothing',
    'b81': 'C27_Chain: bodies that are references already',
    'b83': 'C28: content of the same media type without schema',
    'b84': 'C28: structures with descriptions of their own',
    'b86': 'C26_Agree: null at parameters of pointer types',
    'b87': 'C26: zero and boolean defaults and examples',
    'b88': 'C26_Attrs: attributes of parameters and headers',
    'b89': 'C26_Attrs: JSON encoded parameters',
    'b91': 'C23_Fail: interceptors that fail at any set of stages',
    'b93': 'C16_Request: names in both letter cases',
    'b104': 'bare prefixes and empty keys in the rich modes',
    'b106': 'C08_SetReference: references of any length',
    'b113': 'C17_Builders: null values',
    'b130': 'C19_Units: options that override earlier ones',
    'b133': 'C11_Long: graphs of four components',
    'b134': 'C23_Told: mappings, statuses and media types told to interceptors',
    'b135': 'C16: required:"false"',
    'b139': 'C20_Registered: empty components',
    'b142': 'C02_Spec: documents given to reflectors',
    'b144': 'C28: HEAD',
    'b147': 'C02_Foreign: contexts of the other version',
    'b152': 'C13_Again, C14_Again, C15_Again: one structure in two operations',
    'b153': 'C13_Mapping: fields with the form tag',
    'b157': 'C19_Setters: lists shared by contexts',
    'b158': 'C22: headers with descriptions',
    'b182': 'C19_Moved: structures added before the path is changed',
    'b167': 'C13_Body: parameters next to bodies of all kinds and content types',
    'b168': 'media types with capital letters',
    'b175': 'C30_Texts: texts of schemas without type',
    'b164': 'C30 (before the first run): exposers without exported fields',
    'b169': 'C30 (before the first run): attributes a type tells',
    'b149': 'C04_Webhooks31: names with slashes',
    'b117': 'C22_Placeholders: path parameters under every iteration order',
}
try:
    from missed4 import missed4
    missed.update(missed4)
except ImportError:
    pass
rows = []
for d in sorted(glob.glob(V + '/seeded/*'), key=lambda d: os.path.basename(d)):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    i = n.split('-')[0]
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], 'missed first; ' + missed[i] if i in missed else 'at once'))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- table -->', '<!-- end -->'
t = a + '\n| bug | property | breaks | caught |\n| --- | --- | --- | --- |\n' + '\n'.join(rows) + '\n' + b
s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
open(p, 'w').write(s)
