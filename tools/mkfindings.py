import json,subprocess
F=[]
def f(id,props,what,mk,var,correct,actual): F.append(dict(id=id,properties=props,what=what,makefile=mk,variable=var,correct=correct,actual=actual))
f("K1",["C17"],"a recursive variable that refers to itself overflows the stack when it is expanded, instead of giving an error: `X=$(X)` then `Y:=$(X)`","X=$(X)\nY:=$(X)\n","Y","an error","crash")
f("K2",["C10","C17"],"malformed text in an eval panics instead of giving an error: `X:=$(eval endif)`","X:=$(eval endif)\n","X","an error","panic")
fixed=[]
P={'836f4fb':'C04','2e2844e':'C06','6ea07ce':'C02','8c2c28c':'C02','71cc82c':'C04','0d69896':'C08','207912a':'C05','19f88e3':'C01','d7c2db3':'C01','5fa840a':'C12','b6b2b0c':'C01','e6e9555':'C04','58279d5':'C17','4b0e294':'C09','a6446ee':'C17','7aab00d':'C17','3bd7a58':'C16','4d311d4':'C09','e302b7f':'C20','76ba230':'C03','5b32129':'C16','92a37ba':'C16','88d0a74':'C08','c474b33':'C09','c958daa':'C17','c8464c7':'C06','f6bf056':'C03','28e5e47':'C12','35dfbbd':'C01','f6150a2':'C16','d12a277':'C16','538db37':'C04','05a082b':'C08','f5d49a2':'C05','e940e58':'C05','3d12868':'C08'}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,m=l.split(' ',1)
    if m.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s'%(P[h[:7]],h,m[5:]))
json.dump(dict(findings=F,fixed=fixed),open('/verif/known-findings.json','w'),indent=1,ensure_ascii=False)
print(len(F),len(fixed))
