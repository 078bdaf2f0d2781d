H='butane_core/src/db/helper.rs'; SQ='butane_core/src/db/sqlite.rs'; PG='butane_core/src/db/pg.rs'; TU='butane_core/src/db/turso.rs'
DB3=[H,SQ,PG,TU]
DB='butane_core/src/db/'
p('P01','Every wrapper passes each database operation on once, unchanged',
 'An operation asked of any connection or transaction object (boxed, public Connection or Transaction, pooled, sync-from-async and async-from-sync adapters, delegating backends) reaches the object it wraps exactly once, as the same operation, with the same arguments in their places, and the caller gets the result or error of that call.',
 ['inputs','programs'],'Every operation of the connection, backend connection and backend transaction traits on every wrapping type, every argument',
 'There are some 160 operation-and-wrapper pairs, many with several arguments of one type; tests pass through a few of them on one backend.',
 [DB+x for x in ('mod.rs','macros.rs','sync_adapter.rs','adapter.rs','connmethods.rs')],
 [('wrappers','impl ConnectionMethods / BackendConnection / BackendTransaction (and Async) for wrapping types'),('forwarding macros','connection_method_wrapper! and friends, butane_core/src/db/macros.rs')],
 ['calls on the wrapped object','returned value'])
p('P02','Transactions begin, commit and roll back exactly as asked',
 'transaction() sends exactly one BEGIN before the object is handed out; commit() sends exactly one COMMIT and rollback() exactly one ROLLBACK, and success is reported only after the database accepted it. A transaction dropped unfinished is rolled back, one whose commit or rollback succeeded is not touched again, and a finished one answers every operation with an error instead of running it outside the transaction.',
 ['histories','fault_sequences'],'Every sequence of transaction(), operations, commit(), rollback() and drop on every backend, with any of the calls failing',
 'What happens to an unfinished or failed transaction shows only when a commit fails or a handle is dropped on an early return; tests mostly commit successfully.',
 [SQ,PG,TU,DB+'mod.rs'],[('transactions of the backends','SqliteTransaction, PgTransaction, TursoTransaction'),('public handles','Transaction, TransactionAsync in db/mod.rs')],
 ['BEGIN, COMMIT, ROLLBACK sent to the driver, and their order'])
p('P06','Placeholders and bound values agree in every statement',
 'In every statement sent to a database, the k-th placeholder in the SQL text stands for the k-th value bound with it, and the values are bound in the order in which the statement mentions them. PostgreSQL placeholders are numbered consecutively from 1, for as many values as the database accepts.',
 ['inputs'],'Every filter expression, every list of columns and values, every backend',
 'Tests run a few statements with few values; swapped or missing placeholders show only for particular mixes of inlined and bound values, nested filters, or long lists.',
 DB3,[('filter rendering with placeholders',H+' sql_for_expr'),('insert/update texts',H+' sql_insert_with_placeholders, sql_update_with_placeholders'),('placeholder sources','next_placeholder in sqlite.rs, pg.rs, turso.rs')],
 ['SQL text and parameters handed to rusqlite, tokio_postgres and turso'])
p('P07','A filter expression reaches the database with its meaning intact',
 'The SQL condition sent for a filter means exactly what the filter says: each comparison uses its own operator, column and value, comparison with NULL is a NULL test, an empty list matches nothing, an empty conjunction matches everything, and nested and/or/not keep their grouping.',
 ['inputs','programs'],'Every filter expression built from the public expression types, nested to any depth',
 'Grouping errors show only for particular nestings; the tests use few of the infinitely many expressions and mostly one connective.',
 DB3+['butane_core/src/query/mod.rs'],[('expression renderer',H+' sql_for_expr, sql_joins, sql_column'),('per-backend renderers','sql_for_expr in sqlite.rs, pg.rs, turso.rs')],
 ['WHERE clause of the statement handed to the driver'])
p('P20','Query modifiers reach the database, in order, and only when given',
 'A query selects exactly the requested columns of the requested table, in order; filter, ordering, limit and offset appear in the statement exactly when they were given, with the values given, in the order the database requires.',
 ['inputs','programs'],'Every combination of modifiers, every list of columns and sort orders, every backend',
 'There are sixteen combinations of modifiers per backend and unboundedly many lists; tests sample a few, mostly on one backend.',
 DB3+['butane_core/src/query/mod.rs'],[('SELECT composition','query() of the three backends'),('clauses',H+' sql_select, sql_order, sql_limit, sql_offset')],
 ['SELECT text handed to the driver'])
p('P21','A delete removes only the rows its condition selects',
 'Deleting by key removes only rows of that table whose key column equals the given key, and deleting by condition only rows that satisfy the condition; a delete never reaches the database without its condition. Success is reported only after the statement has run exactly once, and the number of deleted rows is the number the database reports.',
 ['inputs'],'Every table, key and condition, every backend, every path to success',
 'An unbounded or repeated delete on one code path destroys data; tests exercise one path per backend on small tables.',
 DB3+['butane_core/src/db/connmethods.rs'],[('delete by condition','delete_where of the three backends'),('delete by key','delete of the connection methods')],
 ['DELETE text handed to the driver','count returned'])
p('P34','Inserts and updates write the given values to the given columns',
 'Saving a row sends one statement that assigns each given value to the column in the same position, of the given table: inserts name exactly the given columns, updates are restricted to the row with the given key, and an upsert replaces all other columns when the key exists. The key reported for an insert is that of the inserted row.',
 ['inputs'],'Every table, list of columns and values, every backend, every path to success',
 'Tests use a handful of models; transposed columns, a missing WHERE or a second execution depend on the shape of the list and the path.',
 DB3,[('insert, update, upsert','insert_returning_pk, insert_only, insert_or_replace, update of the three backends'),('statement texts',H+' sql_insert_with_placeholders, sql_update_with_placeholders')],
 ['INSERT/UPDATE text and values handed to the driver','returned key'])

MG='butane_core/src/migrations/'
p('P03','A migration and its record are applied together or not at all',
 'Applying a migration runs its SQL for the backend and records it as applied in one transaction; downgrading runs its reverse SQL and removes the record in one transaction. Success is reported only after that transaction has been committed, and when anything fails it is not committed and the error is returned.',
 ['fault_sequences','crash_points'],'Every migration, every backend, every operation that can fail, a crash at any point',
 'A fault between the schema change and its bookkeeping needs injected failures; tests apply migrations that succeed.',
 [MG+'migration.rs',MG+'mod.rs'],[('apply and downgrade',MG+'migration.rs'),('bookkeeping',MG+'mod.rs mark_applied, mark_unapplied')],
 ['statements and transaction commands sent to the connection','result returned'])
p('P04','Migrations are applied and undone in chain order, without gaps',
 'The list of all migrations is the chain from the first to the latest in order; the unapplied ones are those after the last applied one; migrating applies exactly these, each once, oldest first, and unmigrating downgrades exactly the applied ones newest first. When a step fails nothing later in the order is attempted and the error is returned.',
 ['histories','fault_sequences'],'Every chain of migrations, every applied prefix, failures at every step',
 'Only chains with several migrations in particular states show an error in the order or a skipped step; tests use short chains and no failures.',
 [MG+'mod.rs'],[('chain traversal',MG+'mod.rs all_migrations, migrations_since, unapplied_migrations, last_applied_migration'),('runs',MG+'mod.rs migrate, unmigrate')],
 ['lists of migrations returned','sequence of applications and downgrades'])
p('P14','The operations of a schema difference turn the old schema into the new one',
 'Applying the operations computed between two schemas to the first one, one after the other, gives the second one; equal schemas give no operations; and each operation is valid where it stands: a table is added after those it refers to unless they refer to each other, and what is changed or removed exists at that point.',
 ['inputs'],'Every pair of schemas',
 'The pairs are unbounded; tests compare a few hand-written ones.',
 [MG+'adb.rs'],[('difference',MG+'adb.rs diff'),('application',MG+'adb.rs transform_with')],
 ['list of operations','schema after transform_with'])
p('P35','What is stored for a migration is what is read back',
 'The SQL texts, predecessor, list of backends, tables and position in the chain that are written to a migration, in files or in memory, are what its readers return later, from the same migration only; a failure to write or read any of it is reported as an error.',
 ['histories','fault_sequences'],'Every migration, name and text, every order of writes and reads, failures of every file operation',
 'Writers and readers agree on paths, keys and encodings only by convention; tests read back a few values and inject no faults.',
 [MG+'fsmigrations.rs',MG+'memmigrations.rs',MG+'fs.rs'],[('file store',MG+'fsmigrations.rs'),('memory store',MG+'memmigrations.rs')],
 ['values returned by the Migration and Migrations methods'])

p('P12','The SQL of a schema operation has that operation\'s effect',
 'For every list of schema operations, the SQL generated for a backend, run on a database with the old schema, leaves it with the new schema: tables and columns added, removed or changed as the operations say, in their order, each operation seeing the effect of those before it, and no other table touched. Rows existing when a column is added get its default, or the type\'s empty value if it may not be NULL, written as a literal of that value.',
 ['inputs','configurations'],'Every list of valid schema operations, every schema, every backend',
 'Each backend builds SQL by its own branches for each combination of changes; tests run a handful of migrations, mostly on one backend.',
 DB3+[MG+'adb.rs'],[('operation to SQL','create_migration_sql, sql_for_op in sqlite.rs, pg.rs, turso.rs'),('default literals',H+' sql_literal_value, column_default')],
 ['SQL returned by create_migration_sql'])
p('P13','Column definitions carry the declared type and every constraint',
 'In the SQL for a new table or an added column each column has the column type that belongs to its declared type on that backend, and is NOT NULL, PRIMARY KEY, UNIQUE or a foreign key to the declared table and column exactly when it was declared so; automatic keys are automatic. A table has its columns in declared order, and IF NOT EXISTS appears exactly when asked for.',
 ['inputs','configurations'],'Every column type and combination of attributes, every backend',
 'There are hundreds of combinations of type and attributes per backend; a dropped constraint is noticed only when data violates it.',
 DB3,[('column definitions','define_column, define_constraint, col_sqltype of the three backends')],
 ['SQL returned by create_migration_sql'])
p('P33','Schema changes keep the data of what they do not remove',
 'Running the SQL generated for changing, adding or removing columns leaves every row of the table with the values it had in all columns that remain: when a table must be rebuilt, all remaining columns are copied to their namesakes before the old table is dropped, and the copy takes its name.',
 ['inputs','histories'],'Every change of columns, every table, every backend, several changes in one migration',
 'Loss shows only in migrations that rebuild tables holding data; tests mostly check the schema, with few columns.',
 DB3,[('table rebuild','change_column, copy_table in sqlite.rs and turso.rs'),('column changes','change_column in pg.rs')],
 ['SQL returned by create_migration_sql'])

SV='butane_core/src/sqlval.rs'; CG='butane_core/src/codegen/'; DM='butane_codegen/src/lib.rs'
p('P11','Conversions between Rust values and SQL values lose nothing',
 'A value of any field type, built in, optional, wrapped, derived or a foreign key, that is converted to a SQL value by any of the conversions has the type declared for its column and is converted back to the same value. No other SQL value is accepted by a field type unless it is represented in full; anything else is an error. Views of a SQL value have its type and contents.',
 ['inputs','programs'],'Every field type, every value, every pair of conversions',
 'Each type has several hand-written or generated conversions in both directions; tests store a few values of some of them, far from the limits of their types.',
 [SV,'butane_core/src/uuid.rs','butane_core/src/fkey.rs','butane_core/src/autopk.rs',DM],[('conversions','impl ToSql, FromSql, FieldType'),('derived field types',DM+' derive_field_type')],
 ['result of from_sql on what to_sql returned'])
p('P38','A stored value is read back from the database as the same value',
 'Every SQL value handed to a database driver is given in the form its column has in that database, and reading the column with its type returns the same value, with NULL as NULL and timestamps to the last digit. Values a subquery returns are passed on unchanged.',
 ['inputs','configurations'],'Every kind of SQL value, every value of it, every backend',
 'Each backend has its own pair of conversion functions with a branch per type; tests store ordinary values on one backend.',
 [SQ,PG,TU],[('to the driver','rusqlite::ToSql, postgres::types::ToSql, turso value conversion'),('from the driver','BackendRow::get of the three backends')],
 ['values handed to and taken from the drivers'])
p('P29','Stored data that does not fit is reported as an error',
 'Reading a row whose columns are too few or too many, or hold a value of another type, out of range, NULL where none is allowed, or text that cannot be parsed for the field, returns an error. It never panics and never yields an altered value.',
 ['inputs','fault_sequences'],'Every stored value, every field type, every backend',
 'Such data comes from other programs or older schemas and is absent from tests, which read what they wrote.',
 [SV,SQ,PG,TU,DM],[('readers','FromSql implementations, BackendRow::get, generated from_row')],
 ['errors returned by queries'])
p('P10','Rust type, model column, recorded schema and database column have one type',
 'The SQL type declared for a Rust field type, the type of the column in the generated model and the type recorded for the column in the schema, which decides the column in the database, are the same for every field, however the type is spelled, through options, generated keys, user defined types and foreign keys.',
 ['programs'],'Every field type in every spelling',
 'Three tables of types written by hand must agree; a disagreement shows only for a field of that type, on a backend with strict columns.',
 [CG+'mod.rs',CG+'dbobj.rs',CG+'migration.rs',SV],[('types by spelling',CG+'mod.rs get_primitive_sql_type'),('declared types','FieldType::SQLTYPE')],
 ['generated COLUMNS','recorded .table files'])
p('P28','Generated code reads and writes each field in its own column',
 'For every model the generated code lists one column per stored field, reads each field from the position of its column, writes values in the order of the columns they go to leaving out generated keys, and uses the field marked as key, or id, as its key. Each many-to-many field is bound to its own link table and to the key of its object before it is used or saved. A row with another number of columns is refused.',
 ['programs'],'Every struct accepted by the model macro: any order of fields, keys, options, links and attributes',
 'Positions are computed separately for reading, inserting and updating; tests use models with the key first and links last.',
 [CG+'dbobj.rs',CG+'mod.rs'],[('row mapping',CG+'dbobj.rs rows_for_from, columns, push_values'),('links',CG+'dbobj.rs impl_many_save')],
 ['code generated for a model'])
p('P37','The recorded schema describes the models exactly',
 'For every model compiled, the schema recorded for migrations has its table under its name with one column for each stored field, nullable exactly if optional, and key, generated, unique and with a default exactly as the model says; foreign keys refer to the key of the model they name, and each many-to-many field has a link table referring to both.',
 ['programs'],'Every struct accepted by the model macro',
 'The schema is built from syntax, apart from the code that uses the columns; tests cover few combinations of attributes.',
 [CG+'migration.rs',CG+'mod.rs','butane_core/src/migrations/adb.rs'],[('schema from syntax',CG+'migration.rs create_atables')],
 ['recorded .table and types files'])

Q='butane_core/src/query/'
p('P08','A filter written in the DSL selects what it says',
 'Each operator of filter!, query! and find! becomes the condition of the same meaning on the column of the field named, with the value given: comparisons, null tests, like, membership, && binding tighter than ||, conditions on a referenced object, and membership in a many-to-many field, which goes through the link table of that field and the keys of both models. The fields offered are those of the model, each with its own column name and type.',
 ['programs'],'Every filter expression over every model and field type',
 'Filters are built at compile time from syntax, generic in two models whose key, table and link names have to be put in the right of a dozen places; tests use a few models with the same key name.',
 ['butane_codegen/src/filter.rs',Q+'fieldexpr.rs',CG+'dbobj.rs','butane/src/lib.rs'],[('operators',Q+'fieldexpr.rs'),('expansion','butane_codegen/src/filter.rs')],
 ['BoolExpr built by a filter','query sent by find!'])
p('P17','Saving writes an object with the one statement its key calls for',
 'Saving an object with a generated key that is not set inserts it once without the key and takes over the key the database generated; with the key set it updates the row of that key; without generated keys it inserts or replaces the row. The columns written and the values are those of the object, the key column has the type of the key, the links are saved afterwards, every failure stops the save and is reported; deleting an object deletes the row of its key.',
 ['inputs','programs'],'Every model, every state of the key, every failing step, sync and async',
 'Whether a row is inserted, updated or replaced depends on the kind of key, its state and the number of columns; tests sample some of the combinations on working connections.',
 ['butane_core/src/lib.rs'],[('save','butane_core/src/lib.rs DataObjectOps::save'),('delete','butane_core/src/lib.rs DataObjectOps::delete')],
 ['calls on the connection','state of the key'])
p('P18','A generated key is set once, by the database',
 'A generated key is not valid until it has been read from the database, a key that is valid is never set again, an unset key is never written to the database nor equal to any key, and a set key converts to and from SQL as the value it holds.',
 ['inputs','histories'],'Every key type and state of the key',
 'A key that looks valid too early makes save update a row that is not there, one that looks invalid inserts a copy; tests look at the integer key of one model.',
 ['butane_core/src/autopk.rs','butane_core/src/sqlval.rs'],[('AutoPk','butane_core/src/autopk.rs'),('initialize','butane_core/src/sqlval.rs PrimaryKeyType')],
 ['is_valid, initialize, to_sql, comparison'])
p('P39','A query runs with exactly the settings given to it',
 'Each step of building a query sets its own part and keeps the others, and orders are kept in the order given. Loading sends the table, columns, condition, limit, offset and order of the query, once, and returns every row as an object, in order, or an error; loading the first row asks for one; deleting uses the condition; get and try_get look for the key given and tell a missing object from an error.',
 ['inputs','programs'],'Every query and combination of settings, sync and async',
 'Settings are optional numbers and lists passed by position through three layers; a lost or swapped one changes results only for data that tests do not have.',
 [Q+'mod.rs','butane_core/src/lib.rs'],[('builder',Q+'mod.rs Query'),('running',Q+'mod.rs QueryOps'),('lookup','butane_core/src/lib.rs DataObjectOps::get, try_get')],
 ['calls on the connection','returned objects'])
p('P40','A foreign key stands for one object, however it is made or shared',
 'A foreign key made of an object, of its key or of a stored value has the key of exactly that object for reading, comparing, storing and serializing, and refuses a stored value that cannot be a key. Loading runs one query for that key unless the object is there, and keeps the object only when that succeeds; threads that use one foreign key at the same time all get an object of that key and never panic.',
 ['inputs','schedules','histories'],'Every state of a foreign key, every interleaving of the steps of threads sharing one',
 'The two caches are filled in lazily through shared references; tests use one thread and the common states.',
 ['butane_core/src/fkey.rs','butane_core/src/util.rs'],[('ForeignKey','butane_core/src/fkey.rs'),('once cells','butane_core/src/util.rs')],
 ['pk, get, load, to_sql, comparison'])
p('P41','A result delivers every row once, in order, with its own values',
 'The rows a database returns for a query are given to the reader one by one, each once and in order, with the values of the columns asked for in their places; the current row is the one given last; an error while reading is reported and never taken for the end. Copying rows out of a cursor, for threads and for databases without one, keeps all of this.',
 ['inputs','fault_sequences'],'Every number of rows, every row whose reading fails, every backend and adapter',
 'Rows pass through cursors, copies and adapters; an off-by-one or an error taken for the end only shows on particular row counts and failures.',
 ['butane_core/src/db/connmethods.rs',SQ,PG,TU],[('row lists','butane_core/src/db/connmethods.rs VecRows, VecRow, MapDeref'),('cursors',SQ+' QueryAdapter; query of '+PG+' and '+TU)],
 ['rows given to the reader'])
p('P19','A many-to-many relation holds what was last put into it',
 'After any history of adding and removing values, a save makes the rows of its owner in the link table those of the values added and not removed since, a deletion removes them all, setting replaces them by the values given, and no such operation touches the rows of another owner. A statement that fails loses nothing: saving again completes what was asked for. Loading gives the stored values together with those added and without those removed since, the values kept in memory are never out of date, and relations that have no owner yet, are not loaded or are given unsaved objects are reported as such.',
 ['histories','fault_sequences'],'Every history of additions, removals, saves, deletions and loads, every failing statement, sync and async',
 'Pending additions, pending removals, the link table and the loaded values must agree after every order of operations and failures; tests use one owner, a few orders and connections that work.',
 ['butane_core/src/many.rs'],[('pending changes','butane_core/src/many.rs Many::add, remove'),('operations','butane_core/src/many.rs ManyOps')],
 ['statements on the link table','loaded values'])

CLI='butane_cli/src/lib.rs'
p('P36','A new migration records its changes, its origin and the SQL for every backend',
 'A migration made from one schema to another has the name given, holds every table of the new schema (those that change as they become), names the migration it starts from if any, and for every backend asked for holds the SQL of that backend for the differences from the old schema to the new and back; the first one also creates the table in which applied migrations are kept. It joins the chain only when it is complete, a failure of any step is reported, and equal schemas make no migration. A copy of a migration has the tables, types, origin and SQL of the original.',
 ['programs','configurations','fault_sequences'],'Every difference between schemas, every set of backends, every failing step',
 'A table left out or linked to the wrong migration, or SQL of the wrong backend or direction, only shows when a later migration is made or undone on that backend.',
 [MG+'mod.rs'],[('creation','butane_core/src/migrations/mod.rs MigrationsMut::create_migration_to'),('copy','butane_core/src/migrations/mod.rs copy_migration')],
 ['migrations made'])
p('P30','The commands act on exactly the migrations they are meant to',
 'In a project with any number of migrations, any of which are applied to its database: migrating applies the unapplied ones in order, up to the one named if it is among them; rolling back undoes the last applied one, or all applied ones after the one named, last first, and is refused without changing anything if there is none. Detaching is refused for the initial migration and for one that is applied; collapsing checks everything it needs before it clears the migrations, makes one migration of the schema last applied for the backends in use and marks it as applied; clearing data deletes all rows of every table of the last applied schema. Every failure ends the command with an error and at once, and each command of the program runs its own function.',
 ['histories','configurations','fault_sequences'],'Every chain of migrations, number of them applied, target, and failing step',
 'The wrong migrations are only applied or undone for certain combinations of chain, applied part and target; the commands have hardly any tests.',
 [CLI,'butane_cli/src/main.rs'],[('commands',CLI+' migrate, unmigrate, detach_latest_migration, collapse_migrations, clear_data'),('dispatch','butane_cli/src/main.rs')],
 ['migrations applied and undone','exit status'])
p('P32','Commands that edit migrations keep them complete for every backend and embedded',
 'A migration is made from the latest one for the backends that one has, or else the backend of the project. Adding a backend gives every migration its SQL for the step from the schema before it and back, removing one takes its SQL from all but never the last backend, and regenerating makes every migration again, in order, from the one before it, with the schema and backends it has. Embedding writes a program that holds all migrations in order, whatever text is in them, and every command that changes the migrations embeds them again afterwards if they are embedded.',
 ['programs','configurations','fault_sequences'],'Every chain of migrations, set of backends, text in a migration, and failing step',
 'A migration without SQL for a backend, or generated code that some text in a migration breaks, only shows in projects with that text or when that migration is applied with that backend.',
 [CLI],[('commands',CLI+' make_migration, add_backend, remove_backend, regenerate_migrations'),('embedding',CLI+' embed, update_embedded')],
 ['SQL of each migration','generated source'])

p('P31','A connection string reaches the backend that understands it',
 'Every string is taken for the backend it is meant for: a PostgreSQL URL or key-value string for pg, a libsql, turso or sqlite URL for that backend with the path it names, and anything else for a SQLite file of that name. Connecting, also from a pool, asks exactly the named backend for exactly the string given, under any feature set; an unknown name is an error. A parameter that is added is added to what is there, and a saved specification is read back as it was.',
 ['inputs','configurations'],'Every connection string, backend name, parameter and place of saving',
 'Tests connect with a few well-formed strings; a string that is taken for another backend shows as a new empty SQLite file named like the string.',
 ['butane_core/src/db/mod.rs','butane/src/db/r2.rs','butane/src/db/deadpool.rs'],[('connection specifications','butane_core/src/db/mod.rs ConnectionSpec, connect, get_backend'),('pools','butane/src/db/{r2,deadpool}.rs')],
 ['backend asked','string passed on'])
p('P15','Foreign keys are enforced on every SQLite and Turso connection',
 'Every connection to SQLite or Turso that is given out is to the database asked for and has the enforcement of foreign keys switched on, however it was made; when switching it on fails, there is no connection. Nothing switches it off later.',
 ['inputs','fault_sequences'],'Every way of connecting, database, and failing step',
 'Without enforcement every test of valid programs passes; what is lost is the error for the row that refers to nothing.',
 [SQ,TU],[('connecting',SQ+' SQLiteBackend::connect'),('connecting',TU+' TursoConnection::open')],
 ['pragma executed on the connection','connection given out'])

p('P25','The async adapter does its work once, on its own thread, and never outlives it',
 'Every use of a synchronous connection or transaction through the async adapter, including making, formatting and dropping it, is one job that its own thread runs once and in the order sent, and whose answer the caller waits for. A caller that goes away meanwhile leaves nothing dangling and nothing behind: what the job borrows stays until it is done, and what it made is dropped. The thread is told to end and waited for when the last adapter is gone.',
 ['schedules','fault_sequences'],'Every method, interleaving of callers and thread, point at which a caller goes away, and failing send or receive',
 'The code extends lifetimes by hand; whether they are respected shows only when a future is dropped in the middle, which no test does.',
 ['butane_core/src/db/adapter.rs'],[('thread and jobs','butane_core/src/db/adapter.rs AsyncAdapterEnv'),('adapter','butane_core/src/db/adapter.rs AsyncAdapter')],
 ['statements run','memory used by the thread','transactions left open'])
p('P24','A connection lent to synchronous code comes back, or is unusable and says so',
 'After with_sync the connection is the one lent, and the caller is given what the function gave, whatever that is; only when the function or a runtime could not be run to its end is there an error and a connection whose every operation fails as poisoned. An adapter for synchronous use, and everything made from it, keeps the runtime it uses alive.',
 ['histories','fault_sequences'],'Every outcome of the function and of each step around it, and every way of making an adapter',
 'The paths that lose a connection need the runtime to fail at the right place; dropping an adapter before what was made from it is not tested.',
 ['butane_core/src/db/mod.rs','butane_core/src/db/dummy.rs','butane_core/src/db/sync_adapter.rs'],[('lending','butane_core/src/db/mod.rs ConnectionAsync::with_sync'),('stand-in','butane_core/src/db/dummy.rs'),('runtime','butane_core/src/db/sync_adapter.rs SyncAdapter')],
 ['connection after lending','result given','runtime kept'])
p('P09','Names that are keywords work everywhere, because every mention is quoted alike',
 'Every table and column name in every statement butane writes, of data or schema, on every backend, is quoted by one rule: exactly the keywords, in any case, are put in quotes, so that all mentions of a name mean the same thing. Names the database makes itself from others, such as those of constraints, are written as it stores them.',
 ['inputs','programs','configurations'],'Every statement and clause that mentions a name, every name, every backend',
 'One clause that forgets quoting works for all names but the keywords, and the tests use few keywords in few clauses; two different rules break PostgreSQL names with capitals.',
 DB3+['butane_core/src/db/helper.rs'],[('the rule',H+' quote_reserved_word'),('its uses','every statement of helper.rs, sqlite.rs, pg.rs, turso.rs')],
 ['statements handed to the driver','SQL of migrations'])
p('P22','A failed operation is never passed over',
 'When anything butane does to a database, a file or another process fails, or a value read from one cannot be converted, the function that did it reports an error, or has looked at what kind of error it was and acts on that; it never goes on as if the operation had succeeded or there had been nothing to find. Nothing that can fail is left unread, no future is made and never run, and no sequence of results is thinned out to those that succeeded.',
 ['fault_sequences','inputs'],'Every operation that can fail at any point of any history, in every function of the library and both interfaces',
 'Tests run on databases and disks that work; the branch that swallows an error needs exactly that operation to fail.',
 DB3+['butane_core/src/many.rs','butane_core/src/fkey.rs','butane_core/src/migrations/fsmigrations.rs','butane_core/src/migrations/migration.rs','butane_core/src/lib.rs'],
 [('database','db/sqlite.rs, db/pg.rs, db/turso.rs'),('migrations on disk','butane_core/src/migrations/fsmigrations.rs'),('objects','butane_core/src/lib.rs, many.rs, fkey.rs, query/mod.rs')],
 ['errors returned','values returned after a failure'])
p('P23','The schema recorded on disk is written and read by one at a time',
 'While a type or a table is being recorded in a migration on disk, nothing else reads or records that migration\'s schema: recording holds the migration\'s lock exclusively and reading the schema holds it at least shared, from before the first file is touched until after the last, and whoever comes second waits. So programs compiled, checked and managed side by side never read half a file and never lose a type that another recorded.',
 ['schedules'],'Every interleaving of processes and threads that record types and tables and read the schema of the same migration',
 'Losing a type or reading half a table takes two builds meeting within microseconds; tests build one at a time or never look.',
 ['butane_core/src/migrations/fsmigrations.rs'],[('recording','FsMigration::add_type, add_modified_table'),('reading','FsMigration::db'),('lock','MigrationLock')],
 ['files read and written','locks held'])
p('P16','A column has the type and the target its declaration means',
 'When a schema is put together, a column declared as a reference gets the type of the key of the table it refers to, through aliases and keys that are references themselves, and its foreign key points to exactly that table and key; a custom type gets the type recorded for it, and maps from text are kept as JSON. The order of tables and types does not matter, what is already known is kept, and a declaration that means nothing, or only itself, is an error rather than a guess or an endless search; the names of types are read from disk as they were written.',
 ['programs','inputs'],'Every set of tables, keys, references, aliases and custom types, in every order',
 'The tests resolve a few references one or two steps long in one order; a search that stops a step early or resolves to the wrong table needs longer chains.',
 ['butane_core/src/migrations/adb.rs'],[('resolution','ADB::resolve_types, TypeResolver'),('targets','AColumn::resolve_reference_target'),('keys','TypeKey')],
 ['types of columns','targets of references','errors'])
p('P26','Migrations are deleted, detached and cleared exactly as asked',
 'Deleting all migrations removes every entry of their directory, or all of them in memory, except the current schema; clearing them also removes every record of applied migrations from the database and nothing else of it, and clearing the current schema removes only that. Detaching the latest migration makes its predecessor the latest and touches no other file, and fails without any change if there is none; the detached migrations are exactly those on disk that are not in the chain. Stripping a migration removes all it holds but its place in the chain, and copying its directory copies every file of it.',
 ['inputs','histories'],'Every directory of migrations, chain, detached migration and file name',
 'The tests delete and detach in one or two small directories; a migration whose name resembles another or a chain of which part is detached is not among them.',
 [MG+'fsmigrations.rs',MG+'memmigrations.rs',MG+'mod.rs'],[('files','FsMigrations::{delete_migrations, clear_current, detach_latest_migration, detached_migration_paths}, FsMigration::{delete_db, copy_to}'),('memory','MemMigrations'),('database','MigrationsMut::clear_migrations')],
 ['files removed and written','latest migration','records of applied migrations'])
p('P27','Schemas, values and settings recorded in JSON are read back as they were',
 'Every schema, operation, type, default value, migration and connection specification that is recorded in JSON, in a file or in a program, is read back as the value that was written: every variant as itself and every field with its own value, also when entries come in another order or are left out because they have their usual value. A PostgreSQL type of any kind, used for custom columns and values, survives being recorded as well.',
 ['inputs','programs'],'Every type that is recorded, each of its variants, with and without its optional fields',
 'The tests record a few schemas with the types they happen to use; a field that is not written or read, or a variant that is read as another, shows only in a schema that uses it.',
 [MG+'adb.rs',MG+'fsmigrations.rs',MG+'memmigrations.rs','butane_core/src/custom.rs','butane_core/src/sqlval.rs','butane_core/src/lib.rs'],[('types','derived Serialize and Deserialize of recorded types'),('PostgreSQL types','custom::pgtypeser')],
 ['JSON of schemas and migrations','values read from it'])
p('P05','What the program reports of a project and remembers for it is true',
 'Listing shows every migration in order, as applied exactly when the database has it; describing a migration compares its schema with that of the migration before it (and the current changes with the latest migration) and prints every change of a table, column or attribute, old before new. A project remembers exactly the connection it was given, of a known backend and connectable when that was asked, and the state that was saved. A command works on the project here or on the only one of the workspace.',
 ['inputs','histories','fault_sequences'],'Every chain of migrations, number of them applied, operation, and failing step',
 'The tests of the program run a few commands and hardly look at what they print; a migration listed as applied that is not, or one described against the wrong schema, passes all of them.',
 [CLI],[('reports','butane_cli::list_migrations, describe_migration, print_ops'),('settings','butane_cli::init, CliState'),('projects','butane_cli::base_dir')],
 ['output of butane list, describe-migration','.butane/connection.json, clistate.json'])
