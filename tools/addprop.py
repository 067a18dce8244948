#!/usr/bin/env python3
"""addprop.py C03 quick thorough 'rule' [cargo features] : register a workload module in the harness."""
import sys
p, q, t, rule = sys.argv[1:5]
deps = sys.argv[5] if len(sys.argv) > 5 else ""
m = p.lower()
f='/verif/sim/harness/src/props/mod.rs'; s=open(f).read()
s=s.replace('pub mod util;',f'#[cfg(feature = "{m}")]\npub mod {m};\npub mod util;')
i=s.index('pub const ALL'); j=s.index('];',i); s=s[:j]+f', "{p}"'+s[j:]
s=s.replace('        _ => return None,',f'''        "{p}" => Plan {{
            quick_runs: {q},
            thorough_runs: {t},
            rule: "{rule}",
            real: REAL,
            stub: STUB,
        }},
        _ => return None,''')
s=s.replace('        _ => panic!("no workload"),',f'''        #[cfg(feature = "{m}")]
        "{p}" => {m}::run(),
        _ => panic!("no workload"),''')
open(f,'w').write(s)
f='/verif/sim/harness/Cargo.toml'; s=open(f).read()
if f'\n{m} = ' not in s: s=s.replace('[dependencies]',f'{m} = [{deps}]\n[dependencies]',1)
open(f,'w').write(s)
