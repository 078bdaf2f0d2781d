"""Which rules decide which property."""
BACK = [('sqlite',), ('pg',), ('turso',)]

CHECKS = {}


def check(pid, level, rule, *run, floor=1, assumptions=()):
    CHECKS[pid] = dict(level=level, rule=rule, run=run, floor=floor, assumptions=list(assumptions))


SYM = 'columns, rows, values and names are symbolic; '
check('P01', 'proof', 'Path enumeration over every implementation of the connection and transaction traits that wraps another one: on every path that '
      'succeeds the wrapped object got exactly one call of the same operation with the same arguments in their places, and its result is what is returned.',
      ('deleg', 'run', None), floor=150,
      assumptions=['channels and worker threads deliver a job once or report an error (the model in rules/flow.py)'])
check('P02', 'proof', 'Path enumeration over begin, commit, rollback and drop of every backend transaction, with the state of the transaction object: each path '
      'that succeeds sent exactly the right transaction command and awaited it, a dropped unfinished transaction is rolled back, a finished '
      'one refuses further work; no other code controls transactions.',
      ('trans', 'check_backend', BACK), ('trans', 'check_public', None), floor=115,
      assumptions=['a Turso transaction is dropped inside a tokio runtime; otherwise the code itself can only warn'])
check('P06', 'proof',
      'Abstract interpretation of every connection method with concrete list lengths and symbolic values: in each SQL text that can reach '
      'the driver the k-th placeholder is the k-th of the statement, and the list bound with it has the values in the order of the text; '
      'the numbering counter can reach the limit of the database.',
      ('expr', 'check_params', BACK), ('expr', 'check_counter', None), ('stmts', 'check_alternation', BACK), floor=99,
      assumptions=['list lengths up to 8 (13 in filters) are enumerated; longer lists by the loop languages'])
check('P07', 'proof',
      'Each backend\'s filter renderer is run abstractly on every expression form and every nesting of two compound forms, with symbolic '
      'columns, values and sub-expressions; the text it can produce is parsed back with SQL\'s precedence and must mean the expression, with '
      'the bound values substituted in order.',
      ('expr', 'check_render', BACK), ('lowered', 'check_lowered', None), floor=2200,
      assumptions=['lists of up to 8 conditions, 3 values and 3 joins are enumerated', 'the renderer is compositional: sub-expressions are rendered by the same function'])
check('P20', 'proof', 'The language of SELECT texts of every backend, for every combination of present and absent modifiers, must be included in the '
      'specified statement; clauses in the order the database requires, every modifier used exactly once.',
      ('stmts', 'check_select', BACK), floor=180)
check('P21', 'proof', 'The language of DELETE texts and bound values of every backend must be included in the specified statement, whose WHERE clause is the '
      'condition given; every successful return has executed it once and reports the driver\'s count.',
      ('stmts', 'check_delete', BACK), ('stmts', 'check_delete_provided', None), floor=20)
check('P34', 'proof', 'The languages of INSERT, upsert and UPDATE texts and of the values bound to them must be included in the specified statements (any '
      'number of columns, and exactly for 0 to 3 columns); every successful return has executed the statement exactly once; generated keys '
      'are read back from the row just inserted.',
      ('stmts', 'check_writes', BACK), floor=150)
check('P03', 'proof', 'Path enumeration over apply and downgrade of a migration: on every path that succeeds the schema change and its record in the '
      'migrations table ran once each in one transaction that is committed last; on every other path the transaction is not committed.',
      ('chain', 'check_atomic', None), floor=45)
check('P04', 'proof', 'Abstract interpretation over finite chains of migrations in which every operation can fail: the lists of migrations computed, and the '
      'applications and downgrades performed, must be exactly those of the chain, in order, or an error.',
      ('chain', 'check_lists', None), ('chain', 'check_runs', None), floor=500,
      assumptions=['chains of up to 4 migrations'])
check('P14', 'proof', 'Abstract interpretation of the schema diff on a family of pairs of schemas covering every kind of difference: applying the operations to the old schema, in order, gives the '
      'new one, and nothing refers to a table that does not exist yet or any more.',
      ('schema', 'check_diff', None), ('schema', 'check_transform', None), floor=200,
      assumptions=['schemas of up to 3 tables and 3 columns; names are opaque tokens'])
check('P35', 'proof', 'Abstract interpretation of the migration stores over an abstract file system with faults: each successful store wrote what its reader '
      'reads back from the same place, in order; every fault is reported.',
      ('store', 'check_fs', None), ('store', 'check_mem', None), floor=400)
PARTS = lambda *ps: [(b, p) for b in ('turso', 'sqlite', 'pg') for p in ps]
check('P12', 'proof', 'The SQL texts that can be produced for every operation, and for sequences of operations, on a family of schemas are derived by abstract '
      'interpretation, parsed, and replayed on an abstract database: it must end up as the new schema says; defaults are the literals of their values.',
      ('ddl', 'check_ops', PARTS('single', 'pair', 'defaults')), floor=300,
      assumptions=['names are opaque tokens; schemas of up to 4 tables with up to 4 columns'])
check('P13', 'proof', 'As P12, for column definitions: every type, every combination of nullable, primary key, unique and reference, in new tables and as added columns.',
      ('ddl', 'check_columns', [('turso',), ('sqlite',), ('pg',)]), floor=500)
check('P33', 'proof', 'As P12, following the rows: after the SQL of any change every column that remains has the values it had.',
      ('ddl', 'check_rows', PARTS('single', 'pair')), floor=190)
check('P11', 'proof', 'Every implementation of the conversions of field types is run abstractly: what any of them writes has the type of the column, and each reader gives back '
      'the value; every other value accepted is represented in full; SqlVal and SqlValRef are the same value, of the same type.',
      ('conv', 'check_fields', [('butane_core',), ('butane_witness',)]), ('conv', 'check_refs', None), ('customval', 'check_custom', None), floor=1000,
      assumptions=['serde, chrono and uuid conversions are inverse to each other as documented'])
check('P38', 'proof', 'For every kind of value, what each backend gives its driver has the storage class or wire type of the column and is read back, through the '
      'reader of that backend, as the same value; date formats must keep every digit.',
      ('conv', 'check_lite', [('sqlite',), ('turso',)]), ('conv', 'check_pg', None), floor=500,
      assumptions=['values of PostgreSQL types of its own (Custom) are not stored in SQLite or Turso'])
check('P29', 'proof', 'The reading side of every conversion and of every generated row reader, on every kind of stored value: success only with the whole value, never a panic.',
      ('model', 'check_malformed', None), floor=900)
check('P10', 'proof', 'For every field of a program using every field type in every spelling: the SQL type of the Rust type, of the column of the model and of the column in the schema recorded '
      'at compile time, followed through references, are one type.',
      ('model', 'check_types', None), floor=60, assumptions=['the witness program has every field type; user types are followed through the recorded types'])
check('P28', 'proof', 'The code generated for a program with every kind of field is analysed: rows are read from the positions of their columns, values are written in the order of the columns '
      'they go to, key and links belong to the object.',
      ('model', 'check_mapping', None), floor=250, assumptions=['the models of the witness program cover the generator'])
check('P37', 'proof', 'The schema the macros record while the witness program is compiled is compared with its types and attributes, column by column.',
      ('model', 'check_recorded', None), floor=400, assumptions=['the models of the witness program cover the generator'])
check('P08', 'proof', 'The filters of a witness program are analysed as compiled: each must build the condition of its meaning, with the tables, keys and link tables of the models it names; so must the '
      'accessor of every field of every model, and the queries of find!.',
      ('ops', 'check_filters', None), ('ops', 'check_find', None), floor=140, assumptions=['the witness program uses every operator of the DSL'])
check('P17', 'proof', 'Every path of save and delete, for every kind and state of key and number of columns, with every step able to fail: exactly the specified statement with the '
      'specified arguments, then the generated key, then the links; success only if all succeeded.',
      ('ops', 'check_save', None), floor=50)
check('P18', 'proof', 'Every path of the operations of generated keys in each state.', ('ops', 'check_autopk', None), floor=25)
check('P39', 'proof', 'Every path of the query builder, of running a query in every combination of settings, and of the lookups by key.',
      ('ops', 'check_builder', None), ('ops', 'check_run', None), ('ops', 'check_lookup', None), floor=300)
check('P40', 'proof', 'Every operation of foreign keys in every state, with other threads filling in the same cells between any two steps.',
      ('fkey', 'check_make', None), ('fkey', 'check_use', None), ('fkey', 'check_load', None), floor=85,
      assumptions=['OnceLock behaves as documented'])
check('P41', 'proof', 'Every function that hands on rows is run abstractly on cursors of 0 to 3 rows each step of which can fail: the rows given out must be those of the cursor, in order, and '
      'every failure an error.',
      ('rows', 'check_vecrows', None), ('rows', 'check_pass', None), ('rows', 'check_collect', [('copy',), ('turso',), ('pg',)]), ('rows', 'check_copied', None), floor=200,
      assumptions=['up to 3 rows of 2 columns; more behave as the third'])
check('P19', 'proof', 'Replay of every history of additions, removals, saves, deletions and loads up to a bound on a relation and an abstract link table, each statement of which can fail.',
      ('many', 'check_history', [('Sync',), ('Async',)]), ('many', 'check_state', None), floor=2000,
      assumptions=['two values per relation and histories of up to 4 operations; values do not influence each other'])
check('P36', 'proof', 'Every path of making and copying a migration is run abstractly on schemas whose difference is known, for two backends; what is recorded, and in which order, is compared with the difference.',
      ('create', 'check_create', None), ('create', 'check_current', None), ('create', 'check_copy', None), floor=400,
      assumptions=['the difference of two schemas is right (P14), and each backend writes the SQL of its operations (P13, P33)'])
check('P30', 'proof', 'Every path of every command that changes a database is run abstractly on chains of up to 3 migrations, any number of which are applied, where each step can fail; the steps it takes '
      'on migrations are compared with those wanted.',
      ('cli', 'check_migrate', None), ('cli', 'check_rollback', None), ('cli', 'check_detach', None), ('cli', 'check_collapse', None), ('cli', 'check_clear', None), ('cli', 'check_main', None), floor=2000,
      assumptions=['chains of up to 3 migrations; longer ones behave alike', 'the library says rightly what is applied and unapplied (P03, P04)'])
check('P32', 'proof', 'Every path of every command that changes the migrations of a project is run abstractly on chains of up to 3 migrations where each step can fail; the generated source is parsed around the '
      'place of the migrations in it.',
      ('cli', 'check_make', None), ('cli', 'check_backend', None), ('cli', 'check_regenerate', None), ('cli', 'check_embed', None), floor=800,
      assumptions=['chains of up to 3 migrations; longer ones behave alike'])
check('P31', 'proof', 'The functions that read, write and use a connection specification are run abstractly over classes of strings (each scheme, key word and path), and the backend, string and place each reaches are compared with the ones required.',
      ('conn', 'check_route', None), ('conn', 'check_names', None), ('conn', 'check_connect', None), ('conn', 'check_parameter', None), ('conn', 'check_saved', None), floor=100,
      assumptions=['url::Url::parse splits off the scheme of a URL', 'strings behave alike within the classes tried'])
check('P15', 'proof', 'On every path of connecting that gives a connection, foreign keys were successfully switched on for it, it is opened on the database asked for, and nothing else makes such a connection or switches them off.',
      ('conn', 'check_enforce', None), floor=12,
      assumptions=['SQLite enforces foreign keys on a connection after PRAGMA foreign_keys = ON'])
check('P25', 'proof', 'Every method of the async adapter is run abstractly together with the job it sends; the thread is run on words of commands; what the waiting coroutines own is found by a must-analysis of their MIR, and '
      'where pointers are followed by a search of it.',
      ('adapt', 'check_calls', None), ('adapt', 'check_worker', None), ('adapt', 'check_end', None), ('adapt', 'check_drop', None), ('adapt', 'check_made', None), ('adapt', 'check_cancel', None),
      ('adapt', 'check_touch', None), floor=300,
      assumptions=['channels of crossbeam and tokio deliver what is sent once and in order', 'futures are dropped, not forgotten'])
check('P24', 'proof', 'with_sync, the stand-in for a lost connection and everything that makes a synchronous adapter are run abstractly with every step failing or not; the connection held afterwards and the runtime kept are compared with what is required.',
      ('adapt', 'check_lent', None), ('adapt', 'check_dummy', None), ('adapt', 'check_runtime', None), floor=45,
      assumptions=['tokio runs a blocking function once and its handle gives its result or an error'])
NAMES_ = [('stmts', f, b) for f in ('check_select', 'check_delete', 'check_writes', 'check_pk') for b in ('turso', 'sqlite', 'pg')] + \
         [('expr', f, b) for f in ('check_render', 'check_params') for b in ('turso', 'sqlite', 'pg')] + \
         [('ddl', 'check_columns', b) for b in ('turso', 'sqlite', 'pg')] + \
         [('ddl', 'check_ops', b, p) for b in ('turso', 'sqlite', 'pg') for p in ('single', 'pair')] + [('ddl', 'check_ops', 'pg', 'defaults'), ('stmts', 'check_delete_provided'), ('lowered', 'check_lowered')]
check('P09', 'proof', 'The languages of all statements, derived as for P06, P07, P12, P13, P20, P21 and P34, must be included in specifications in which every table and column '
      'name comes from the one quoting function; that function must quote every keyword of the list, in any case, and change no other name; constraint names follow the '
      'stored names.',
      ('quoting', 'check_names', NAMES_), ('quoting', 'check_quoter', None), ('quoting', 'check_constraints', None), floor=2000,
      assumptions=['the keyword list of sqlparser has the reserved words of the databases', 'the tables of migrations and their columns are constant names that are no keywords'])
check('P22', 'proof', 'From every branch on which an operation (anything that touches the database, a file or another process, directly or through other functions) failed, all reachable returns are '
      'errors, or the error itself was examined; no result of an operation and no future is dropped unseen, and no sequence of results is filtered down to those that succeeded.',
      ('errors', 'check_passed', None), ('errors', 'check_unread', None), ('errors', 'check_skipped', None), floor=1500,
      assumptions=['destructors and formatting have no way to report an error', 'the command line tool may fall back when it looks for its project'])
check('P23', 'proof', 'Must-hold dataflow over the guard of the lock, through helpers and closures: every access to the files of a migration made by recording a type, recording a table and reading the schema happens while the guard lives, '
      'recording exclusively; all take the lock of the same file, by blocking calls, never while they hold it; the guard owns the open file it locked.',
      ('locks', 'check_held', None), ('locks', 'check_lock', None), floor=20,
      assumptions=['an advisory lock of the operating system works as documented on the file system used', 'changing a finished migration, as the command line tool does, is not done by two processes at a time'])
check('P16', 'proof', 'resolve_types is run abstractly on schemas with every kind of declaration, alias, chain and circle, in different orders of the tables, and its result compared with the meaning of the declarations; '
      'the types kept as JSON, and the writing, reading and ordering of the keys of types, are evaluated symbolically.',
      ('resolve', 'check_resolve', None), ('resolve', 'check_json', None), ('resolve', 'check_keys', None), floor=50,
      assumptions=['schemas of up to three tables and chains of up to three steps stand for all', 'maps and sets of the standard library behave as documented'])
check('P26', 'proof', 'Every operation that takes something away from the recorded migrations is run abstractly on directories of known entries (chains of migrations, detached ones, look-alike names) '
      'and on known migrations in memory; the files removed and written, and what is left in memory, are compared with what the operation is to take away.',
      ('forget', 'check_detach', None), ('forget', 'check_detached', None), ('forget', 'check_delete', None), ('forget', 'check_strip', None), ('forget', 'check_copy', None),
      ('forget', 'check_memory', None), ('forget', 'check_clear', None), floor=40,
      assumptions=['directories of up to three migrations stand for all', 'files and directories behave as the operating system documents; failures of them are P22'])
check('P27', 'proof', 'For every type with derived serialization and every variant of it, each path of its writer is run abstractly with a token for every field, and its reader on each document so written, '
      'in both orders of the entries: the value read has the tokens written. Fields with functions of their own are read by the counterpart of what wrote them, and every kind of PostgreSQL type goes through its recorded form unchanged.',
      ('serial', 'check_types', None), ('serial', 'check_with', None), ('serial', 'check_pg', None), floor=200,
      assumptions=['serde and serde_json hand every entry written to the reader under its name', 'the types of the standard library are written and read back by serde unchanged'])
check('P05', 'proof', 'Every path of the commands that report on a project (list, describe) or remember its settings (init, the saved state), and of the search for the project, is run abstractly on chains of up to 3 migrations where each step '
      'can fail; the lines printed are compared with the facts, the schemas compared with those of the chain, and what is saved with what is read back.',
      ('report', 'check_list', None), ('report', 'check_describe', None), ('report', 'check_ops', None), ('report', 'check_init', None), ('report', 'check_state', None), ('report', 'check_edit', None), ('report', 'check_base', None),
      floor=1500, assumptions=['chains of up to 3 migrations; longer ones behave alike', 'the library says rightly what is unapplied (P03) and what the difference of two schemas is (P28)'])
