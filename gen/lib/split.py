# splits the contracts of decoders into clauses, so that a failed one says which part of the behaviour changed:
# accepted though not an encoding / refused though an encoding / remainder / value
import re
PAT = re.compile(r'ensures match r \{\n    Ok\(\(vx_t, vx_o\)\) => (.+?) == Some\(vx_t@\) && (.+?) && (vx_t@\.len\(\) <= .*),\n    Err\(_\) => \1 is None,\n\},')
def split(s):
    return PAT.sub(lambda m: 'ensures\n    r is Ok ==> %s is Some,\n    r is Err ==> %s is None,\n    match r { Ok((vx_t, vx_o)) => %s == Some(vx_t@) && %s, Err(_) => true },\n    match r { Ok((vx_t, vx_o)) => %s, Err(_) => true },' % (m[1], m[1], m[1], m[3], m[2]), s)
