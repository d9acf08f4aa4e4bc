#!/usr/bin/env python3
"""Generates unicode_tables.inc from Python's unicodedata (stand-in for uni-algo's data)."""
import unicodedata, sys
cf=[];dc=[];cc=[];cp_=[]
for c in range(0x110000):
    if 0xD800<=c<0xE000: continue
    ch=chr(c)
    f=ch.casefold()
    if f!=ch: cf.append((c,[ord(x) for x in f]))
    if not 0xAC00<=c<0xD7A4:
        d=unicodedata.normalize('NFD',ch)
        if d!=ch: dc.append((c,[ord(x) for x in d]))
    k=unicodedata.combining(ch)
    if k: cc.append((c,k))
    dd=unicodedata.decomposition(ch)
    if dd and not dd.startswith('<'):
        p=dd.split()
        if len(p)==2:
            a,b=int(p[0],16),int(p[1],16)
            if unicodedata.normalize('NFC',chr(a)+chr(b))==ch: cp_.append((a,b,c))
cp_.sort()
def m(n,l):
    print(f"static const MapEntry {n}[] = {{")
    print(",".join("{0x%x,{%s}}"%(c,",".join("0x%x"%x for x in s)) for c,s in l)); print("};")
m("kFold",cf); m("kDecomp",dc)
print("static const CccEntry kCcc[] = {"); print(",".join("{0x%x,%d}"%x for x in cc)); print("};")
print("static const CompEntry kComp[] = {"); print(",".join("{0x%x,0x%x,0x%x}"%x for x in cp_)); print("};")
