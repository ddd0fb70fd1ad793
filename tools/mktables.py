#!/usr/bin/env python3
"""One-off transcription of the published MIDI tables (controller and manufacturer names) into Tables.tla.
The committed Tables.tla is what the checks use; it is never regenerated by a check."""
import re,sys
repo=sys.argv[1]
def esc(s):
    out=''
    for b in s.encode():
        c=chr(b)
        if 0x20<=b<=0x7e and c not in '"\\<>': out+=c
        else: out+='<%02X>'%b
    return out
c=open(repo+'/midi/lib/controller.go').read()
ctl=re.findall(r'(\d+):\s+Controller\{(\d+), "([^"]*)"\}',c)
m=open(repo+'/midi/lib/manufacturer.go').read()
man=re.findall(r'"([0-9A-F]+)":\s+Manufacturer\{ID: \[\]byte\{([^}]*)\}, Region: "([^"]*)", Name: "([^"]*)"\}',m)
print('------------------------------- MODULE Tables -------------------------------')
print('(* Names of controllers and manufacturers (transcribed from the MIDI 1.0 tables the program documents). *)')
print('EXTENDS Integers, Sequences\n')
print('UNKNOWN == "<3C>unknown<3E>"\n')
print('ControllerName(id) ==\n  CASE '+'\n    [] '.join('id = %s -> "%s"'%(i,esc(n)) for _,i,n in ctl)+'\n    [] OTHER -> UNKNOWN\n')
print('Manufacturers == <<')
rows=[]
for k,ids,r,n in man:
    rows.append('  [id |-> <<%s>>, region |-> "%s", name |-> "%s"]'%(', '.join(str(int(x,16)) for x in ids.split(',')),esc(r),esc(n)))
print(',\n'.join(rows)+' >>\n')
print('''ManufacturerAt(id) == {i \\in 1..Len(Manufacturers) : Manufacturers[i].id = id}

Manufacturer(id) ==
  IF ManufacturerAt(id) = {} THEN [id |-> id, region |-> UNKNOWN, name |-> UNKNOWN]
  ELSE Manufacturers[CHOOSE i \\in ManufacturerAt(id) : TRUE]

KnownManufacturer(id) == ManufacturerAt(id) # {}
=============================================================================''')
