import json,subprocess
P={'7e020e8':'C03','1680508':'C20','355601b':'C13','ca83d37':'C19','1b367fe':'C20','f80cc22':'C19','660b3f1':'C18','880bbb6':'C18','7a4ad7f':'C22','3519871':'C22','2b14164':'C20','44272dc':'C20','a4eed95':'C20','4298841':'C20','6e117c4':'C10','18d62a0':'C11','847ba9d':'C12','d57768e':'C13','65e29c4':'C13','61a8481':'C13','000a53c':'C14','ba4f344':'C13','cc60d79':'C14','568c7dc':'C19','dffa5e2':'C19','45a8d61':'C08','a9b9b50':'C06','6351d86':'C23','e276790':'C17','7b82b08':'C18','0d66f90':'C18','4791071':'C18','480c2ec':'C01','7e4ab81':'C20','e4c4443':'C20','c5bfbc3':'C23','2255a15':'C20','4aa3a92':'C20','b56de9e':'C20','7efd15d':'C20','8169c3c':'C20','df224ef':'C22','e725ce4':'C21','2cbc129':'C21','d0e28b3':'C25','4104071':'C25','a665bc0':'C24','3041a08':'C24','250c4d7':'C27','0fff920':'C27','d3357b4':'C18','7c4104f':'C22','ef443a7':'C22','8e455ef':'C05','570f564':'C10','6f70946':'C05'}
import sys
W=json.load(open('/verif/fix_notes.json')) if False else {}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h|%H|%s']).decode().splitlines():
    h,H,s=l.split('|',2)
    if s.startswith('fix:'):
        out.append(f"fixed: property={P.get(h,'?')} {H[:12]} {s[5:]}")
k=json.load(open('/verif/known_findings.json')) if __import__('os').path.exists('/verif/known_findings.json') else {"known":[]}
k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print([o for o in out if '=?' in o])
