AI = 'abstract interpretation of MIR + regular-language inclusion'
PE = 'typestate and effect analysis by path enumeration over MIR'
TECH = {
 'P01': (PE, 'Every path of every wrapping implementation (loops cut after two rounds). The thread channel is modelled, not analysed.'),
 'P02': (PE, 'Every path of begin/commit/rollback/drop/operations of each backend transaction; what rusqlite and tokio_postgres do on drop is trusted.'),
 'P06': (AI, 'Proves agreement for every statement with enumerated list lengths (values, names symbolic) and, for loops over lists of any length, that placeholders are generated and written one for one. The databases\' own placeholder semantics are trusted.'),
 'P07': ('abstract interpretation of the renderers + parsing back with SQL precedence', 'Every expression form and every nesting of two compounds (three in thorough); lists enumerated up to 8. What SQL means is the parser in rules/expr.py.'),
 'P20': (AI, 'The text language for all presence combinations of the modifiers is proved to be within the specification; query builder plumbing by term equality. Execution by the database is trusted.'),
 'P21': (AI, 'As P20, for DELETE; also that each success path runs the statement exactly once.'),
 'P34': (AI, 'As P20, for INSERT/UPDATE/upsert; any number of columns by loop languages and exactly 0-3 columns.'),
 'P03': (PE, 'Every path of apply/downgrade. That DDL is transactional in the databases is trusted.'),
 'P04': ('abstract interpretation over finite abstract chains with fault branches', 'Chains of up to 4 migrations, every operation able to fail; longer chains run the same loops.'),
 'P14': ('abstract interpretation on a covering family of abstract schemas', 'Names and column attributes are tokens compared only for equality; up to 3 tables x 3 columns covers each branch of the diff in combination.'),
 'P35': ('abstract interpretation over an abstract file system with faults', 'Each writer/reader pair of FsMigration(s) and MemMigration(s). serde_json round trips are trusted.'),
 'P12': ('abstract interpretation of the SQL generators + replay of the derived SQL on an abstract database', 'Every operation, every single attribute change, all ordered pairs of operations on one table; names are tokens. What the statements mean is the small DDL semantics in rules/ddl.py.'),
 'P13': ('abstract interpretation of the SQL generators + replay of the derived SQL on an abstract database', 'Every column type x nullable x key x unique x reference, in CREATE TABLE and ADD COLUMN, every backend.'),
 'P33': ('abstract interpretation of the SQL generators + replay of the derived SQL on an abstract database', 'Rows are tracked through every statement; the rebuild of a table must copy each kept column before the old table is dropped.'),
 'P11': ('abstract interpretation of every conversion on symbolic values of every variant', 'Writers x readers x variants of all field types of butane_core and of the witness program (derived ones).'),
 'P38': ('abstract interpretation of the driver conversions, write composed with read', 'Every kind of value x backend; numeric casts are compared by range, date formats by the digits they keep.'),
 'P29': ('abstract interpretation of the readers on every kind of stored value', 'Panic edges, unwraps and lossy casts on the reading side are violations; row readers are those generated for the witness program.'),
 'P10': ('comparison of type tables extracted from the type-checked program and from the schema emitted by its macros at compile time', 'All field types in all spellings the generator knows.'),
 'P28': ('abstract interpretation of macro-generated code of a witness program', '8 models and a partial result: generated keys, own table names, reserved words, links before, between and after columns.'),
 'P37': ('compile-time witness: the schema emitted by the macros is compared with the type-checked program', 'Names, types, null, key, unique, default, reference of every column and of the link tables.'),
 'P08': ('abstract interpretation of macro-generated code of a witness program', 'Every operator of the DSL over models with own keys, table names and links, with symbolic values.'),
 'P17': (PE, 'Every path of save and delete x kind and state of the key x number of columns.'),
 'P18': (PE, 'Every path of every operation of AutoPk in every state.'),
 'P39': (PE, 'Every path of the builder, load, load_first, delete, get and try_get x presence of each setting.'),
 'P40': ('typestate analysis over MIR with interference of other threads on shared once-cells', 'Every operation x state of the foreign key x interleaving with another thread filling the cells.'),
 'P41': ('abstract interpretation over finite row cursors with fault branches', 'Cursors of 0-3 rows; every step can fail. VecRows is replayed call by call.'),
 'P19': ('abstract interpretation with exact list semantics; exhaustive replay of operation histories with fault branches', 'Histories of up to 4 operations on 2 values, from an empty and a full link table; each statement can fail; rows of another owner are present.'),
 'P36': (PE, 'Worlds of one kind of difference each (and two), with and without a migration to start from, two backends; every step can fail.'),
 'P30': ('abstract interpretation of the commands over finite migration chains with fault branches', 'Chains of 0-3 migrations x number applied x target; every step can fail. The dispatch of main is compared with the commands.'),
 'P32': ('abstract interpretation of the commands over finite migration chains with fault branches; parsing of the generated source template', 'Chains of 0-3 migrations, one or two backends; every step can fail.'),
 'P31': ('abstract interpretation over classes of connection strings', 'Each scheme, key word, regular expression outcome and path class; every backend name; pools included.'),
 'P15': ('must-happen-before analysis over all paths of connecting; who-constructs analysis on the call graph', 'Every path to a connection, every constructor of a connection, every pragma in the program text.'),
 'P25': ('abstract interpretation of caller, job and thread; must-ownership dataflow at await points; raw-pointer query over MIR', 'Every method with its job, every failing send and receive; words of commands up to length 4 for the thread; every await of the adapter.'),
 'P24': ('abstract interpretation with fault branches', 'Every path of with_sync, of every method of the stand-in, and of everything that makes a synchronous adapter.'),
 'P09': ('regular-language inclusion of all statement texts in specifications whose names are quoted; symbolic evaluation of the quoting rule', 'Every statement of every backend with each of its clauses, the schema changes of P12 and P13, and every path of the quoting function.'),
    'P22': ('reachability of returns from failure branches in the explored graphs, with unused-result and dropped-error queries over the MIR', 'Every failure branch of every call that can fail, in every function of the library.'),
    'P23': ('must-hold lock dataflow over the MIR, interprocedural through helpers and closures; symbolic evaluation of the locked path', 'Every access to a file of a migration that recording or reading the schema can make.'),
    'P16': ('abstract interpretation with exact semantics for maps of known keys, compared with a denotational reading of the declarations', 'Every path of the resolution on each schema, and of the reading, writing and ordering of keys.'),
    'P26': ('abstract interpretation on a symbolic file system of known entries, compared with the intended effect', 'Every path of each operation on each directory and store in memory.'),
    'P27': ('abstract interpretation of derived serializers composed with their deserializers over symbolic documents', 'Every path of every writer and reader of every recorded type and variant.'),
    'P05': ('abstract interpretation of commands over bounded worlds, with the printed text matched against the facts', 'Every path of each reporting and setting command in each world, each step failing or not.'),
}
