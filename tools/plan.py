"""What decides each property: the modules whose obligations carry it, and the level claimed."""

# The modules that are woven; in this order they only need each other and the stubs.
MODULES = ['position', 'error', 'token', 'variable', 'saved_data', 'input_history', 'operations', 'syntax_tree', 'commands', 'main']

TRUST_NUM = 'num-bigint and num-rational compute exactly (assumed contracts in contracts/stubs/num.rs)'
TRUST_STD = 'String, Vec, HashMap and iterators do what their documentation says (contracts/stubs/vstd_model.rs)'
TRUST_SQL = 'each SQL statement does to the tables what contracts/sql.txt says, and an unfinished transaction leaves them as they were'
TRUST_TERM = 'crossterm reports events, sizes and cursor positions as contracts/stubs/crossterm.rs says (no paste events, positions below 65535)'
TRUST_CLAP = 'clap accepts only what the range attributes on the options allow (contract generated from them)'
TRUST_SIZE = 'memory and stack suffice'
PLAN = {
    'C01': {'modules': ['operations', 'syntax_tree', 'variable'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE]},
    'C02': {'modules': ['operations'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE]},
    'C03': {'modules': ['token', 'position', 'error'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE]},
    'C04': {'modules': ['syntax_tree'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_SIZE]},
    'C05': {'modules': ['operations', 'position', 'token', 'syntax_tree', 'input_history', 'commands', 'variable', 'saved_data', 'main'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE, TRUST_SQL, TRUST_TERM, TRUST_CLAP]},
    'C06': {'modules': ['operations', 'main'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE]},
    'C07': {'modules': ['operations', 'token', 'syntax_tree', 'main'], 'level': 'proof', 'assumptions': [TRUST_NUM, TRUST_STD, TRUST_SIZE]},
    'C08': {'modules': ['variable', 'syntax_tree', 'commands', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_SQL]},
    'C09': {'modules': ['input_history', 'saved_data', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_SQL, TRUST_TERM]},
    'C10': {'modules': ['saved_data', 'input_history'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_SQL]},
    'C11': {'modules': ['saved_data', 'variable', 'syntax_tree', 'commands', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_NUM, TRUST_SQL]},
    'C12': {'modules': ['commands', 'token', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_NUM]},
    'C13': {'modules': ['position', 'error', 'token', 'syntax_tree', 'commands', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD]},
    'C14': {'modules': ['token', 'commands', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD]},
    'C15': {'modules': ['input_history', 'main'], 'level': 'proof', 'assumptions': [TRUST_STD, TRUST_TERM]},
}
for _p in PLAN.values():
    _p.setdefault('assumptions', [])

RULES = {
    'C01': 'Random expression trees over every operator, with operands from tiny to hundreds of digits and defined or unset variables, evaluated by the real code and by an independent exact evaluator. Non-trivial: at least one operator; distinct by the line and settings.',
    'C02': 'Random bases, root degrees, radixes and precisions; the result is checked against the exact power of the bracket ends root +- bound. Non-trivial: a root is taken.',
    'C03': 'Random lines of number, name, operator, blank and stray characters in radix 2..16, tokenised by the real code and by an independent reader. Non-trivial: at least one token or an error.',
    'C04': 'Random well-formed and damaged token sequences, parsed by the real code and by an independent precedence parser, compared as values over random operands. Non-trivial: at least two operators or an error.',
    'C05': 'Random sessions of lines (expressions, commands, damaged text) under random settings. A panic, an abort, an error that is neither about the line nor caused from outside, or a run beyond 20 s of processor time fails. Non-trivial: at least one line.',
    'C06': 'Random values, radixes, precisions, commas and upper settings, formatted by the real code and by an independent long division. Non-trivial: a non-zero value.',
    'C07': 'Random values printed by the real code and entered again. Non-trivial: a non-zero value.',
    'C08': 'Random sessions of assignments and uses against a map of what was assigned last. Non-trivial: at least one assignment.',
    'C09': 'Random editing and recall sessions, with and without earlier sessions on disk, against a list of what was entered. Non-trivial: at least one recall.',
    'C10': 'Random sequences of entered lines, capacity changes and failing statements on a real database file in a scratch directory; the rows are read back and compared. Non-trivial: at least two operations.',
    'C11': 'Random sequences of setting, using, reloading and purging variables, capacity changes and failing statements on a real database file in a scratch directory. Non-trivial: at least two operations.',
    'C12': 'Random sequences of setting commands, valid and invalid, against a model of every setting. Non-trivial: at least one command.',
    'C13': 'Random lines; every token, sub-expression and error position is compared with an independent reading of the line. Non-trivial: at least one token or an error.',
    'C14': 'Random lines around the slash, command names, aliases and arguments, against an independent reading. Non-trivial: the line is not blank.',
    'C15': 'Random key and resize sequences sent to the real program through a terminal, with the screen compared with a model after each. Non-trivial: distinct sequences.',
}

NOT_APPLICABLE = {}
for _p in PLAN.values():
    if _p['level'] == 'proof':
        _p['technique'] = 'contracts woven into the real functions, discharged by Verus (Z3); replay search for failing inputs'
    elif _p['modules']:
        _p['technique'] = 'contracts woven into the real functions (Verus) for part of it, labelled bounded check of the rest'
    else:
        _p['technique'] = 'bounded stand-in for contracts: the real functions against an independent oracle'
    if _p['level'] == 'proof':
        _p.setdefault('note', 'Proved: Verus discharges the contracts of every function the property rests on, woven into the current sources; the generated inputs are an extra, bounded, search for failing inputs.')
    elif _p['modules']:
        _p.setdefault('note', 'Part proved (contracts of ' + ', '.join(_p['modules']) + ', discharged by Verus on every run); the rest bounded: generated inputs compared with an independent oracle.')
    else:
        _p.setdefault('note', 'Bounded: generated inputs compared with an independent oracle; nothing is proved.')
