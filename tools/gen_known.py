"""Lists the repairs in /repo in known_findings.txt, next to the findings kept there by hand."""
import subprocess
PROP = {
    "3c2b66c":"C56",
    "367e0c6": "C23","3a8f8a4":"C56","d10d914":"C09","bd8a7d9":"C10",
 "7b62737":"C02","975ca9a":"C02","aae5db6":"C04","2244c3a":"C04","909b3e9":"C05","37f678a":"C09","7baf504":"C09","d74339a":"C09",
 "e83655d":"C10","58cc2ff":"C09","1417306":"C12","7885e3d":"C08","2109f0c":"C08","33da216":"C06","327c3ae":"C09","369252c":"C13",
 "c4ce608":"C13","61964f4":"C14","bb89715":"C14","9ebf174":"C15","e4f1d6d":"C15","a6e4869":"C15","a8eff63":"C16","35684b5":"C17",
 "fedeb15":"C17","961f726":"C16","62267c8":"C16","376d836":"C18","1e14b63":"C20","4526b13":"C21","8cafc52":"C21","792208c":"C21",
 "a0ec4c0":"C21","3d67764":"C19","d07fe7e":"C20","4459ea5":"C19","621ad43":"C19","c1b78d3":"C22","17bf85f":"C22","4753ccf":"C24",
 "60322c6":"C22","becc8d9":"C19","e3d81bd":"C23","0263d25":"C25","e2bbe41":"C26","c5ed6bf":"C28","935678f":"C30","16ed91f":"C30",
 "17b9aa1":"C32","ecf4a5b":"C32","37aab08":"C32","48b9a12":"C31","7acca36":"C44","b4028db":"C44","b40262c":"C31","08088dc":"C33",
 "de81ad9":"C33","1f34705":"C34","5859235":"C34","5f5e0f0":"C37","b0f5800":"C38","7c574ba":"C39","edc8f19":"C40","9a57507":"C40",
 "5965acd":"C40","8a1120c":"C35","32a2e37":"C35","43683bf":"C35","a203e59":"C36","45b14bd":"C42","e4c674b":"C41","44dfa93":"C42",
 "4177b56":"C45","a2a733d":"C45","70146dd":"C50","70b6c4b":"C50",
 "e044629":"C17","ff9c223":"C17","7ddd563":"C15","f30ce16":"C26","0210096":"C14","0f1d5ff":"C14","d35f0ab":"C15","f44bb09":"C27","ca37a4e":"C28","e87497b":"C06","0ec1ade":"C06","2e76400":"C08","742be70":"C34","bd35c61":"C11","1745d5e":"C40","1234a93":"C13",
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9482272..HEAD"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    out.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[5:]))
try:
    keep = [l for l in open("/verif/known_findings.txt").read().splitlines() if not l.startswith("fixed: ")]
except FileNotFoundError:
    keep = ["# finding: property=<id> case=<repr> :: what fails   (suppresses exactly that case)",
            "# fixed: property=<id> <commit> <what failed>        (suppresses nothing)"]
open("/verif/known_findings.txt", "w").write("\n".join(keep + out) + "\n")
print(len(out))
