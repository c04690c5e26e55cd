#!/usr/bin/env python3
"""Writes mc/gen_hooks.go: every composition of embedded structs, by value and
by pointer, with and without after-unmarshal methods, up to three levels."""
import os
out = ['// Code generated by tools/gen_hooks.py. DO NOT EDIT.', '', 'package main', '', 'type (']
meths = []
table = []
own = {}      # type -> '', 'H', 'V'
embeds = {}   # type -> [(type, ptr)]

def struct(name, members, embs, hook):
    own[name], embeds[name] = hook, embs
    out.append('\t%s struct {' % name)
    if members:
        out.append('\t\t%sA string `json:"%sa"`' % (members, members.lower()))
    for t, ptr in embs:
        out.append('\t\t%s%s' % ('*' if ptr else '', t))
    if members:
        out.append('\t\t%sN int `json:"%sn"`' % (members, members.lower()))
    out.append('\t\t%sSeen int `json:"-"`' % (members))
    out.append('\t}')
    if hook == 'H':
        meths.append('func (s *%s) AfterUnmarshal() { s.%sSeen++; hkLog("%s", s) }' % (name, members, name))
    elif hook == 'V':
        meths.append('func (s %s) AfterUnmarshal() { hkLog("%s", &s) }' % (name, name))

def promoted(name):
    """the depth rule of Go: is AfterUnmarshal in the method set through an embedded struct?"""
    if own[name]:
        return False
    level = [t for t, _ in embeds[name]]
    while level:
        n = sum(1 for t in level if own[t])
        if n:
            return n == 1
        level = [u for t in level for u, _ in embeds[t]]
    return False

def anyPromoted(name):
    return promoted(name) or any(anyPromoted(t) for t, _ in embeds[name])

names = []
for m in 'XY':
    for h in ('', 'H', 'V'):
        struct('Hk' + m + h, m, [], h)
        names.append('Hk' + m + h)
opts = [None] + [(h, p) for h in ('', 'H', 'V') for p in (False, True)]
n = 0
l1 = []
for e1 in opts:
    for e2 in opts:
        for h in ('', 'H', 'V'):
            embs = []
            if e1: embs.append(('HkX' + e1[0], e1[1]))
            if e2: embs.append(('HkY' + e2[0], e2[1]))
            name = 'HkM%d' % n
            n += 1
            struct(name, 'M', embs, h)
            names.append(name)
            if e2 in (None, ('H', False), ('H', True)):
                l1.append(name)
n = 0
for t in l1:
    for ptr in (False, True):
        for h in ('', 'H'):
            if not h and not ptr and own[t]:
                continue
            name = 'HkO%d' % n
            n += 1
            struct(name, 'O', [(t, ptr)], h)
            names.append(name)
out.append(')')
out.append('')
out += meths
out.append('')
out.append('var hkTypes = []hkType{')
for t in names:
    out.append('\thkMake[%s]("%s", %s, %s),' % (t, t, str(bool(own[t])).lower(), str(anyPromoted(t)).lower()))
out.append('}')
p = os.path.join(os.path.dirname(__file__), '..', 'mc', 'gen_hooks.go')
open(p, 'w').write('\n'.join(out) + '\n')
print(len(names), 'types', sum(anyPromoted(t) for t in names), 'with a promoted method')
