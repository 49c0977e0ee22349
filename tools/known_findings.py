import subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','7a9bb53..HEAD'],capture_output=True,text=True).stdout.splitlines()
M={"honour the requested time":"C03","do not lose or repeat agents when the queue":"C03","default interval from":"C01","stop the model when there are no":"C06","reject requests":"C02","do not activate dead":"C05","every criterion":"C12","added or killed while iterating":"C12","agent views":"C12","unique_id into account":"C12","free node whenever":"C11","topology without specifying":"C11","given agent_id":"C11","infinite recursion":"C17","messages that have been received":"C15","falsy replies":"C15","arrive while processing":"C14","two characters":"C09","leak reporters":"C20","combine the parameters":"C18","matrix twice":"C18","alter lists":"C22","output option":"-","SISa":"C24","module name of another":"C23","share the topology":"C20","previous backups":"C21","SQLite exporter":"C21","full name of classes":"C22","nested use":"C23","expiration of zero":"C15","delay is not valid":"C09","redefined version":"C10","any of its uses":"C23","die in their init":"C05","with and without parameters":"C27","truncate fractional":"C27","limits of the configuration":"C29","without a file in the current":"C29","run_from_file":"C29","defaults of agent classes follow":"C26","states of state machines follow":"C10"}
out=["# Genuine defects of gsi-upm/soil found by the checks.",
"# fixed: repaired in /repo by the given commit (they suppress nothing).",
"# known: recorded and not repaired (there is none at the moment).",""]
for l in log:
    h,s=l.split(' ',1)
    p=[v for k,v in M.items() if k in s]
    assert len(p)==1,(l,p)
    if p[0]=='-':
        out.append(f"# (no property) {h} {s[5:]}")
    else: out.append(f"fixed: property={p[0]} {h} {s[5:]}")
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'KNOWN_FINDINGS.txt'),'w').write('\n'.join(out)+'\n')
