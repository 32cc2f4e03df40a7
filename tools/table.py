"""Writes the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as file:
        text = file.read().split('## Planted bugs')[0]
    lines = ['## Planted bugs', '', (
        'Each breaks its property in a way that needs something particular, '
        'keeps the\n973 stable tests, and is caught by the quick check of its '
        'own property (last\nrun of each recorded by `tools/plant.py '
        '--check`). Others are often caught too;\nthe column names the one '
        'which has to.'), '',
        '| Bug | Caught by | What it breaks | What it needs |',
        '|---|---|---|---|']
    root = os.path.join(HERE, 'seeded')
    for name in sorted(os.listdir(root)):
        with open(os.path.join(root, name, 'meta.json')) as file:
            meta = json.load(file)
        cells = [name, meta['property'], meta['what_it_breaks'],
                 meta['needs']]
        lines.append('| %s |' % ' | '.join(
            ' '.join(c.split()).replace('|', '/') for c in cells))
    with open(path, 'w') as file:
        file.write(text + '\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
