#!/usr/bin/env python3
# Writes known_findings.json: recorded findings and the list of repaired defects.
import json,os
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known=[]
fixed="""C01 7296899 an empty or one-character bare token made the parser panic
C01 78b031f a non-integer node id made the parser panic
C01 760ba47 a duplicate node id made the parser panic
C02 a160ab7 surrogate pair escapes were read as two invalid characters
C05 6d3168f a document cut off inside a container was accepted
C04 9bb3e28 PrettyString left member names unescaped and dropped node ids
C16 7c096b8 unmarshalling into JSONInt, JSONFloat or JSONBool values stored zero
C16 232db6d a boolean or float into an unsigned field panicked
C16 7f0c0cc tri-state fields ignored numbers and texts that are booleans
C26 7d7be61 unmarshalling into a pointer to a JSON scalar wrote through it, even into the shared true
C16 118c381 JSON scalars held by value were not stored
C16 4dc58a2 unmarshalling into a non-empty interface panicked
C21 fc318b7 JSONFloat.String wrote to the document (data race between readers)
C16 405e00e a JSONFloat value lost its bit size
C15 d2b210b DeepCopy dropped node references
C15 d1ff5b2 forward and mismatched node references panicked on unmarshalling
C15 f33efde a forward reference inside a map entry was lost
C18 5e00169 query keys 01 and +1 were taken for list indices
C18 bcebf03 query parameters were ordered by text instead of by segment
C18 d48d10d contradictory query parameters were dropped silently
C24 30c2778 AfterUnmarshal of an unexported embedded struct panicked
C01 0285098 deeply nested documents overflowed the stack
C19 0472602 YAML text lost DEL, C1 characters and line separators
C05 e7f5ab6 an unquoted member name could start with an open bracket
C12 da1eb1d reading an object as a number or boolean recursed until the stack overflowed
C13 68d9300 an object or list was not unmarshalled through a pointer to a pointer
C13 140f30b Marshal panicked on a named boolean type
C15 e0c25da a path lookup did not follow a node reference in the middle
C23 a620736 a list unmarshalled into a filled slice or array kept parts of the old elements
C17 f32207f Marshal hung on a deprecation chain that leads into a circle
C27 ec4c429 a text with misplaced separators such as 1.2.345 was read as the number 12345
C13 e52bd47 a map key of a named type with a String method was written under the text of that method
C15 0b8d971 Interface() of a cyclic document recursed until the stack overflowed
C15 2b17142 documents with node references were not equal to their copies
C14 56095b9 a null document inside a value was marshalled as an empty object
C15 1ea7d74 lookups through a node reference in a parsed document found nothing
C16 5be4f2a a number between zero and one read into a tri-state or a JSONBool gave false, into a bool true
C13 3c28fe1 a float field with the string tag, or a float read into a string, lost all digits past the sixth decimal (1e-7 became 0.000000)
C16 c455b1d unmarshalling a list into a JSONArray value that already held elements appended to them
C01 795a232 ParseJsonStreams kept an error per unclosed bracket, ten thousand of them exhausted the memory
C15 7e31898 unmarshalling a path that ends in a node reference left the target empty without an error"""
import subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %H"],capture_output=True,text=True).stdout.split()
out=[]
for l in fixed.splitlines():
    p,c,w=l.split(" ",2)
    full=subprocess.run(["git","-C","/repo","rev-parse",c],capture_output=True,text=True)
    if full.returncode: print("unknown commit",c)
    out.append("fixed: property=%s %s %s"%(p,full.stdout.strip() or c,w))
extra=os.path.join(D,"tools","known_extra.json")
if os.path.exists(extra): known=json.load(open(extra))
json.dump({"known":known,"fixed":out},open(os.path.join(D,"known_findings.json"),"w"),indent=1)
