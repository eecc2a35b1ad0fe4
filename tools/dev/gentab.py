import re
out=['// Snapshot of the removable-frame rules (lib/normalize_hash.gperf): the reference the library is compared with.','struct RuleRow { const char *fn; std::vector<const char *> files; };','inline const std::vector<RuleRow> &removable_rules()','{','    static const std::vector<RuleRow> v = {']
on=False
for l in open('/repo/lib/normalize_hash.gperf',encoding='utf8'):
    l=l.rstrip('\n')
    if l=='%%': on=True; continue
    if not on or l.startswith('#') or '|' not in l: continue
    fn,rest=l.split('|',1)
    files=re.findall(r'"([^"]*)"',rest)
    out.append('        {"%s", {%s}},'%(fn,', '.join('"%s"'%f for f in files)))
out+=['    };','    return v;','}']
open('/verif/harness/norm_table.h','w').write('\n'.join(out)+'\n')
