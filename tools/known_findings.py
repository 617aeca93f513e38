import subprocess
ids={'bd038b9':'C01','53fe64c':'C01','3276eab':'C01','9f60518':'C04','67abaab':'C08','88cbd23':'C10','072d907':'C05','0abd7ae':'C03','fd840ac':'C05','7bf1a8c':'C01','bcb6daf':'C07','4902899':'C12','0420948':'C09','318bee5':'C09','0345eae':'C17','d41ed2f':'C08','bea1c68':'C17','9b491ea':'C10','60c8434':'C10','9caa825':'C18','f98ba90':'C14','ca6bffd':'C15','f2776ce':'C20','3255cc4':'C14','1743bc9':'C17','c6575e4':'C04','214dd61':'C04','36589ff':'C18','bfd0c81':'C08','c3f52be':'C17','4666517':'C17','ecd602f':'C17','ec34aa4':'C19','08234d3':'C07','c4f2d32':'C06','4e7b3db':'C07','86939ba':'C21','0168bc1':'C10','dec3ff9':'C10','d570a0c':'C12','116804b':'C16','2d8988b':'C10','0f7bfff':'C11','b75fffe':'C08','5a47a91':'C07','c76a09d':'C10','8694614':'C08','79f2836':'C09','f3a7c3a':'C12','69f3fd1':'C04','ec2bb6e':'C07','61ae386':'C20','0f2ab83':'C17','6c063be':'C19','16d0f7c':'C16','769e29a':'C04','70a4560':'C16','352cefd':'C04','3e00eda':'C17','8847541':'C17','a9d012e':'C21','9b1f83e':'C19','5968cc2':'C16','603a215':'C04','4ce0a35':'C17','e6feb15':'C16','f7a9cac':'C16','4932ddd':'C20','aae476c':'C13'}
import re
out=["# Findings of the checks. Lines `fixed:` suppress nothing. A line",
"# `known: property=<id> input=<hash> <what>` names one failing input (by the",
"# hash of its text, see text_hash in harness/src/run.rs) of a defect which is",
"# not repaired.",""]
out+=["known: property=C01 input=b3cd92fdc5f6428e the text `a[a[...] ||= 1] ||= 1` nested 16 deep takes 134 MB: the target of ||= and &&= is copied into the tree twice, so that every level doubles the work",""]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','6c43a22..'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=ids.get(h) or re.search(r'\((C\d\d)',s).group(1)
    s=re.sub(r' \(C\d\d.*\)$','',s[5:])
    out.append(f'fixed: property={p} {h} {s}')
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
