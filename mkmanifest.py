import json
ded='Verus contracts on the real functions (extracted mechanically on every run), every obligation discharged by Z3'
T={p:ded for p in ['C%02d'%i for i in range(1,17)]}
N={
'C01':'all restyle impls and diff_from under contract; unbounded',
'C02':'ANSI writer contracts + terminal-emulator lemma over them; unbounded in writes and texts',
'C03':'ANSI writer contracts pin the exact bytes; minimality lemma over them',
'C04':'ANSI IO writer and core io loops under contract against an adversarial stream; unbounded',
'C05':'HTML writer contracts + reader (tokenizer) lemma; unbounded',
'C06':'HTML writer contracts + span-structure lemma; unbounded',
'C07':'plain writers under contract: exactly the sink calls made','C08':'styled string representation invariant and replay under contract',
'C09':'formatter functions under contract','C10':'every arm of the std bridge (as the compiler expands it) under contract: the trait sees exactly the given parameters; and the macro emits exactly the parsed parameters, trait and argument (macros/src/to_tokens.rs and format_args_impl under contract over token sequences)',
'C11':'core io loops under contract with retry invariants','C12':'failing-sink contracts: error returned, nothing more sent',
'C13':'every parser in macros/src/format.rs under contract, the theorem that they accept exactly the strings of a declarative grammar with the meaning it gives, and format_args_impl: it expands only accepted strings, to statements for exactly those pieces',
'C14':'format_args_impl, format_args and format_args_nl under contract: they expand exactly the calls whose arguments fit, to the program that selects each placeholder’s target and names every argument expression once',
'C15':'parsing and emission of attribute lists under contract, the theorem that what they say restyles any style as the attributes in order, and Formatter::with_args',
'C16':'contracts of the entry points + agreement lemmas; the newline theorem for format_args_nl; the declarative macros by generated families'}
L={p:'proof' for p in T}
T['C10']+='; Kani on the real bridge as a cross-check (thorough)'
checks=[dict(property=p,quick_cmd='python3 check.py %s'%p,thorough_cmd='python3 check.py %s --tier thorough'%p,evidence_file='evidence/%s.json'%p,technique=T[p],level=L[p],level_note=N[p]) for p in sorted(T)]
json.dump(dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=[]),open('MANIFEST.json','w'),indent=1)
