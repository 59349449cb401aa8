# appends the table of planted bugs to DESIGN.md, from a log of tools/seeds/catch.py
import re,sys,json
rows=[]
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) (\S+) (\S+) (\d+)s\s+\d*\s*(\S+):',l)
    if m: rows.append((m[1],m[2],m[3].lower(),m[5]))
b=open('tools/design/body.md').read().split('\n## Planted bugs')[0].rstrip()+'\n'
t='\n## Planted bugs and what catches them\n\nEvery planted bug in `seeded/` and the oracle of its property\'s quick check that reports it\n(`tools/seeds/catch.py`). '
t+=f'{sum(r[2]=="caught" for r in rows)} of {len(rows)} are caught. Beside these, batches of hand-made\nand generated mutants (one to two hundred each) were run against the checks as they grew; what they\nmissed and was not equivalent became an oracle or a workload, and is not kept.\n\n| planted bug | check | caught by |\n|---|---|---|\n'
for r in rows: t+=f'| {r[0]} | {r[1]} | {r[3] if r[2]=="caught" else "**missed**"} |\n'
open('tools/design/body.md','w').write(b+t); open('DESIGN.md','w').write(b+t)
print(len(rows))
