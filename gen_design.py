'''Fill the tables of DESIGN.md from seeded/*/meta.json, plants.json and known_findings.json.'''
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    with open(os.path.join(HERE, 'plants.json')) as f:
        notes = json.load(f)
    rows = ['| id | property | what it breaks | caught by |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        pid = os.path.basename(os.path.dirname(m))
        with open(m) as f:
            meta = json.load(f)
        rows.append('| {} | {} | {} | {} |'.format(pid, meta['property'], meta['what_it_breaks'],
                                                   notes.get(pid, meta['property'])))
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        found = json.load(f)['findings']
    defects = ['* ' + re.sub(r'^fixed: property=', '', d['what']) for d in found]
    for name, lines in (('PLANTS', rows), ('DEFECTS', defects)):
        block = '<!-- {0} -->\n{1}\n<!-- /{0} -->'.format(name, '\n'.join(lines))
        if '<!-- /{} -->'.format(name) in text:
            text = re.sub(r'<!-- {0} -->.*?<!-- /{0} -->'.format(name), lambda _: block, text,
                          flags=re.S)
        else:
            text = text.replace('<!-- {} -->'.format(name), block)
    with open(path, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
