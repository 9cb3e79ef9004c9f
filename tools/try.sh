#!/bin/bash
# try.sh PROP [seconds] [seed]: 8 workers, print the first violations in a readable form
cd /verif
B=$(python3 tools/build.py ${T:-dyn} | awk '{print $2}') || exit 2
D=$(mktemp -d /tmp/try.XXXX)
for i in 0 1 2 3 4 5 6 7; do
  timeout 300 $B run --prop $1 --seed ${3:-1} --first $i --stride 8 --seconds ${2:-10} --cpu $i --maxfail ${M:-3} --out $D/$i.json --scratch $D --tier ${TIER:-0} &
done
wait
python3 - $D $B <<'P'
import sys,json,subprocess,re,collections
d,b=sys.argv[1:]
fails=[];runs=0;sec=0;mism=0;disc=0;cnt=collections.Counter();mx=0;steps=0
for i in range(8):
    try: lines=open(f"{d}/{i}.json").read().splitlines()
    except Exception as e: print(e); continue
    for l in lines:
        j=json.loads(l)
        if j.get("summary"):
            runs+=j["runs"];sec+=j["seconds"];mism+=j["mismatches"];disc+=j["discarded"];mx=max(mx,j["max_steps"]);steps+=j["steps"]
            for k,v in j["counters"].items(): cnt[k]+=v
        else: fails.append(j)
print("runs",runs,"discarded",disc,"mismatches",mism,"max steps",mx,"avg",steps//max(1,runs))
print({k:v for k,v in cnt.items() if v})
def sym(m):
    def f(x):
        a=x.group(0)
        if int(a,16)>0x7f0000000000: return a
        o=subprocess.run(["addr2line","-Cfe",b,hex(int(a,16)-1)],capture_output=True,text=True).stdout.splitlines()
        fn=re.sub(r"<.*>","<>",o[0])[:70]
        return "\n      %s %s"%(fn,o[1].replace("/repo/",""))
    return re.sub(r"0x[0-9a-f]{6,}(?= |$|\n)",f,m)
seen=collections.Counter()
fails.sort(key=lambda j:j["steps"])
for j in fails:
    k=(j["kind"],re.sub(r"[0-9x'a-f]+","#",j["msg"])[:60])
    seen[k]+=1
    if seen[k]==1 and len(seen)<=4:
        print("=== seed",j["seed"],j["kind"],"steps",j["steps"]); print(sym(j["msg"])[:3500]); print(j["trace"][-1800:])
print(len(fails),"violations",dict(seen))
P
rm -rf $D
