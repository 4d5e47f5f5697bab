"""tools/note.py PROP TECHNIQUE NOTE [LEVEL]: texts of MANIFEST.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json')
d = json.load(open(p)); k = sys.argv[1]
d[k] = {'technique': sys.argv[2], 'note': sys.argv[3]}
if len(sys.argv) > 4:
    d[k]['level'] = sys.argv[4]
json.dump(d, open(p, 'w'), indent=1)
