import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
pm={'c1fa44c':('C01','a document whose members concurrently removed the same member, or each other, could no longer process operations'),
'a66a8d5':('C01','a concurrent add that reused the leaf of a removed member was lost'),
'e6e9465':('C01','a path with the wrong number of nodes indexed out of range'),
'e933f6c':('C01','an add or remove issued right after merging concurrent operations was wrongly taken for a no-op'),
'5c5f68d':('C01','merging a fork kept heads that were not heads, and failed when the owner was not a member'),
'c3db276':('C01','concurrent adds of one member occupied two leaves'),
'3ba7864':('C01','encrypting a path next to a leaf with conflicting keys panicked'),
'3907634':('C03','a leaf whose concurrent update no longer fits the tree kept a stale path, and content keys could not be derived'),
'f77f1ae':('C05','a revocation with a proof from another group, or that its issuer did not hold, was accepted'),
'8f07c6c':('C07','transitive access was not the best path, and a cycle of memberships deadlocked'),
'699f875':('C08','key agreement members differed from those with read access after cascaded revocations, for relays and nested documents'),
'84ba8ab':('C04','current members depended on the arrival order of operations'),
'49f7567':('C06','what a revoked member had delegated stayed in force'),
'5279c34':('C04','operations whose preferred orders contradict each other were dropped'),
'f0e4738':('C06','re-adding a revoked member reproduced the revoked delegation, which had no effect'),
'20a1ee3':('C21','delegations and revocations were reported twice, or when refused'),
'06de917':('C10','an agent was not offered the revocations of nested groups, nested documents, and the keys of former members'),
'15afcb9':('C11','an agent was offered the revocations of groups it has access through only in bulk'),
'71060f5':('C15','picking a prekey could index out of range, and rotations of each other\'s keys left none'),
'9ad8cf5':('C15','exported prekey operations left out rotations of unknown keys, and a cycle of rotations did not end'),
'a4beb5d':('C15','prekey operations were used before their signature was checked, and received ones were not reported'),
}
extra=json.load(open('/verif/tools/kf_extra.json')) if __import__('os').path.exists('/verif/tools/kf_extra.json') else {}
pm.update({k:tuple(v) for k,v in extra.items()})
fixed=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    if h not in pm: print('MISSING',l); continue
    p,w=pm[h]
    fixed.append(f"fixed: property={p} {h} {w}")
findings=json.load(open('/verif/tools/kf_find.json'))
json.dump({"findings":findings,"fixed":fixed},open('/verif/known-findings.json','w'),indent=1)
open('/verif/known-findings.json','a').write('\n')
