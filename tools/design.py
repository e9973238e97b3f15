"""writes the table of planted changes of DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 'N01-full-split': 'missed at first: only compressed spectra were split; parts along the last axis were added',
 'M03-empty-row': 'missed at first: parts without rows were not among the geometries; they are now',
 'P03-vjp-alias': 'missed at first: results were not compared when an input was also the output; P03 was extended',
 'X05-absent': 'would have been missed: balancing was only done once on a fresh grid; earlier balancings with other loads were added',
 'M01-gather-mismatch': 'undecided at first (the error was raised from a helper); the order of calls around errors is now compared for every helper',
}


def main():
    rows = []
    for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        w = ' '.join(m['what_it_breaks'].split())
        rows.append('| %s | %s | %s | %s |' % (i, w if len(w) < 170 else w[:167] + '...', m['property'], MISSED.get(i, 'caught')))
    t = open(os.path.join(V, 'DESIGN.md')).read()
    a, b = '<!-- planted -->\n', '<!-- end planted -->'
    tab = '| planted change | what it breaks | caught by | history |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    t = t[:t.index(a) + len(a)] + tab + t[t.index(b):]
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)


main()
