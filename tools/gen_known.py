#!/usr/bin/env python3
"""Writes known_findings.json: the repairs made in /repo, by subject, with the property that found each."""
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M=[ # subject prefix, property, what failed
("a lookup never leaves the object","C02",'a path that designates nothing returned a value from elsewhere: Get({"a":"x","b":1}, a, b) returned 1, and a missing name was found in a following sibling object'),
("AddKeyValue and Add refuse strings","C05",'AddKeyValue and Add (C06) edited the inside of a string whose text looks like an object or array'),
("Insert refuses strings","C07",'Insert edited the inside of a string whose text looks like an array'),
("Insert before the last element","C07",'Insert before the last element after whitespace put the separator in the wrong place'),
("paths handed in by the caller","C11",'append(path, ...) wrote into the spare capacity of the caller\'s path slice'),
("integers are added and inserted in decimal","C28",'AddInt32/InsertInt32 and their kin formatted in base 0 or truncated: the number read back was another one'),
("a refused string edit","C10",'string variants returned nil instead of the document when refused'),
("core keeps inside the document","C25",'Get("[", "0") and lookups of the first element of a truncated or empty array (C13) ran past the end or returned the bracket'),
("IterateArray calls nothing","C13",'an empty array with inner whitespace gave one callback; a path into a string ran on'),
("IterateKeyValue returns the last","C14",'the error of the callback for the last member was dropped'),
("IterateKeyValue strips","C14",'whitespace before a comma was taken as part of a one letter value'),
("IterateKeyValue reports an empty","C14",'an empty object with inner whitespace gave a bogus member'),
("Length and GetMap measure","C16",'Length counted commas outside the addressed value, GetMap (C15) read the root instead'),
("cleanValue copes","C15",'one letter and empty texts lost a byte or panicked (also C19, C25)'),
("name and value lists","C15",'GetValues and GetKeysValues gave a value for an empty object'),
("IsEmpty counts","C16",'IsEmpty was true for [1] and gave an answer for strings'),
("an array is not an object","C17",'IsObject was true for arrays'),
("GetType knows numbers","C17",'numbers beyond float64 range were called strings'),
("Walk passes","C26",'Walk aborted at empty containers and did not stop when told to inside nested containers'),
("typed array getters and ParseArray","C19",'an empty array gave one empty element or an error'),
("Indent follows escapes","C20",'Indent took an escaped quote as the end of a string'),
("MakeArrayFloat","C23",'MakeArrayFloat wrote zero bytes in front of its numbers'),
("builders cope","C23",'builders of empty lists and maps returned a lone bracket or panicked'),
("schemes keep their key lists","C24",'Save, GetCurrentKeys and MakeScheme shared key slices with callers'),
("MutateJson reports","C24",'MutateJson dropped the error that stopped it'),
("only JSON numbers are written","C28",'strings such as "1_0", "0x1p4", "Inf" were written unquoted: not JSON'),
("JO.StoreString","C27",'JO.StoreString stored the text without quotes'),
("Parse keeps the only element","C21",'the only element of a one-element array was lost'),
("Parse refuses unbalanced","C25",'Parse panicked on unbalanced documents'),
("Parser.Set keeps","C22",'Parser.Set left the tree behind: lookups below a stored container and at its parents gave old values'),
("Parser.SetString","C22",'Parser.SetString wrote raw text without quotes (also C28)'),
("Parser.SetKey","C22",'Parser.SetKey renamed into existing names and did not update the parents'),
("Parser.Delete","C22",'Parser.Delete left array positions and parents behind'),
("Parser.AddKeyValue","C22",'Parser.AddKeyValue accepted names the object has and left parents behind'),
("Parser.Add keeps","C22",'Parser.Add left parents behind'),
("Parser.Insert","C22",'Parser.Insert wrote positions out of step'),
("an empty object fits","C24",'CheckAbs of an empty scheme refused the empty object'),
("Indent copes","C25",'Indent("}") panicked: makeslice with a negative length'),
("a colon without","C25",'GetKeys, GetKeysValues and IterateKeyValue panicked on {: and on a single quote as a value'),
("a key search finds nothing","C25",'Delete({:"", "") panicked: an empty name was found before any key'),
("Add, AddKeyValue and Insert check","C25",'Insert on an empty document, Add and AddKeyValue on blank ones panicked'),
("Set, Store and Delete check","C25",'Set, Store and Delete read behind the end of truncated documents'),
("SetKey names a duplicate","C29",'SetKey to a name the object has reported bad JSON about a well-formed document'),
]
log=[l.split(' ',1) for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()]
out=[];used=set()
for h,s in log:
    if not s.startswith('fix: '): continue
    m=[x for x in M if s[5:].startswith(x[0])]
    assert len(m)==1,(s,m)
    used.add(m[0][0])
    out.append({"property":m[0][1],"status":"fixed","commit":h,"what":f"fixed: property={m[0][1]} {h} {m[0][2]}"})
assert len(used)==len(M),[x[0] for x in M if x[0] not in used]
open(root+'/known_findings.json','w').write('[\n'+',\n'.join(' '+json.dumps(x) for x in out)+'\n]\n')
print(len(out),'entries')
