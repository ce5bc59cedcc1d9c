"""Per-property configuration of check.py."""
PGCLIENT = ["tokio-postgres: Client and Transaction (execute, batch_execute, prepare, query, query_raw) issue what they are given; a row stream gives the statement's rows in order", "a connection and a transaction differ only in the client they hand out (PgConnectionLike)", "the parameter iterators given to query_raw are drained in order (collected first)"]
COMMON = ["Verus and Z3", "the extractor's rewrites (DESIGN.md, Extraction)", "machine model of std in units/prelude.rs"]
LEVEL = "deductive: Verus contracts on the functions extracted from /repo on every run"
PROPS = {
  "C01": dict(units=["C01"], shared=[("C02", r"::(query|delete_where)$")], harness=True, secs=8, features_deep=["turso"], trusted=COMMON, assumptions=[],
              standins=["db/turso.rs where text as produced through the cfg hook", "end-to-end meaning on SQLite"],
              note="the rendering of every condition is proved for all expressions on all three backends; the same text is additionally read back (bounded) from a recording PostgreSQL server, from Turso's generator and by evaluation on SQLite"),
  "C02": dict(units=["C02"], harness=True, secs=8, features_deep=["turso"], trusted=COMMON + PGCLIENT, assumptions=[],
              standins=["db/pg.rs: binding of the values by tokio-postgres"],
              note="markers and value order proved for filters, for the insert, upsert, update and delete builders and for the statement methods of all three backends; the wire encoding of the values only bounded"),
  "C03": dict(units=["C03"], harness=True, secs=8, features_deep=["turso"], trusted=COMMON + PGCLIENT, assumptions=[],
              standins=["db/pg.rs: the wire protocol (recording server)"],
              note="statement builders and the statement methods of all three backends proved; what the database does with the text only bounded"),
  "C04": dict(units=["C04"], harness=True, secs=6, trusted=COMMON + ["chrono's and_utc/naive_utc, uuid's byte and text forms (axioms)", "f32 widening to f64 is exact (axiom); floating point is otherwise uninterpreted"], assumptions=["PgToSql values convert without error (the code panics otherwise)"],
              standins=["HashMap/BTreeMap as JSON (serde)"],
              note="every conversion of every basic type, Option, AutoPk, Uuid, strings, dates proved as round trips and as never-a-different-value; JSON maps only bounded"),
  "C05": dict(units=["C05", "C05pg"], harness=True, secs=6, features_deep=["turso"], trusted=COMMON + ["rusqlite's as_i64/as_f64/as_str/as_blob and UTF-8 (contracts)", "chrono: parsing inverts formatting for the two formats in use (axiom)", "serde_json: parsing inverts printing except for some floats (axiom; known finding)", "postgres-types: per Rust type, decoding inverts encoding for the type's own column type, to the microsecond (axiom); try_get hands a column's bytes to from_sql and a null to from_sql_null"], assumptions=["PgToSql values convert without error where their type is asked for", "the database engine returns the cell it was given (SQLite keeps no NaN: bounded check)", "values of a custom PostgreSQL type are not given to SQLite or Turso (the code panics)"],
              standins=["rusqlite and the SQLite engine between the two conversions", "postgres-types' encoders and decoders"],
              note="both directions of all three backends' conversions proved against a table of stored forms, and the round trip as a lemma over it; the engines in between only bounded"),
  "C13": dict(units=["C13"], shared=[("C02", r"::(query|read_to_end)$")], harness=True, secs=6, features_deep=["turso"], trusted=COMMON + ["rusqlite's Row::get_ref and column_count (contracts)", "a row seen through &dyn BackendRow is the row (vdyn_BackendRow)", "the mapping closure behaves as some function that records its calls (trait RowFn)"], assumptions=["fewer than usize::MAX calls of next on one result"],
              standins=["db/sqlite.rs QueryAdapter (unsafe self-referencing rows of a running query)", "PostgreSQL rows"],
              note="buffered results, copied rows, Turso rows, SQLite rows and the row mapper proved against one contract of what a row delivers; the streaming SQLite adapter (unsafe pinning) only bounded"),
  "C09": dict(units=["C09"], harness=True, secs=5, trusted=COMMON + ["BTreeMap, BTreeSet and mutable iteration (models in units/maps.rs)", "derived PartialEq compares every field; equality of database values is symmetric (axiom; NaN differs from itself)", "derived Clone copies"], assumptions=["tables are filed under their own name and column names are unique in a table"],
              standins=["derived equality and cloning of columns (attribute-by-attribute comparison)"],
              note="diff, diff_table and transform_with proved: applying the operations yields the target schema, the list is empty exactly for equal schemas"),
  "C18": dict(units=["C18"], harness=True, secs=5, trusted=COMMON + ["BTreeMap, HashMap and their entries, mutable iteration (models in units/maps.rs)", "the order of texts is a total order (axiom)", "derived Clone copies"],
              assumptions=["tables are filed under their own name and have a key unless they are link tables", "references name a table or a name registered for one", "no name is both a table with a key and a registered type"],
              standins=["the spellings of JSON map types (JSON_MAP_PREFIXES), all enumerated"],
              note="resolve_types proved against the walk along the names, termination included: every column type and reference afterwards, and an error exactly when some column's name stands for nothing"),
  "C15": dict(units=["C15"], shared=[("C02", r"::(query|delete_where|sql_select|sql_limit|sql_offset|sql_order)$")], harness=True, features_deep=["turso"], secs=5, trusted=COMMON + ["a database's answer to a query is a function of its state and of what was asked (trait ConnectionMethods)", "fallible_iterator's collect and nth (transcribed)", "derived Clone copies", "the code generated for a model: its blank query names its table, reading a row is some relation (trait DataResult)"],
              assumptions=["asynchronous code is the same source text with await added (maybe_async_cfg)"],
              standins=["asynchronous variants and end-to-end rows, on a recording connection over SQLite"],
              note="Query's builder, load, load_first and delete, and every field expression proved against what the connection is asked; collected objects are what reading the answered rows gives, in order"),
 "C07": dict(units=["C07"], shared=[("C02", r"::(insert_only|delete_where|query)$")], harness=True, features_deep=["turso"], secs=5, trusted=COMMON+["a link table holds one row per link; insert_only adds the given row, delete_where removes the rows its condition selects, a failing statement changes nothing (trait ConnectionMethods)","std's OnceLock: written at most once (units/cell.rs)","a new cell's permitted values are chosen once, where it is made","derived Clone copies"], assumptions=["asynchronous code is the same source text with await added (maybe_async_cfg); save, delete, set and load are verified in their synchronous expansion","a loaded object's key can be encoded"], standins=["asynchronous variants, order of loaded objects and whole histories, on a recording connection over SQLite"], note="every function of Many proved: link counts per owner and object after save, delete and set (also after a failing statement, counting what is still pending), other owners and tables untouched, cached values are the linked rows followed by the pending ones"),
 "C08": dict(units=["C08"], harness=True, secs=5, trusted=COMMON+["std's OnceLock: written at most once (units/cell.rs)","what a reference denotes is chosen once, where it is made, and a cell that was filled is not found empty later (choose_denoted, complete_reference)","the key types: a key and what it is stored as determine each other, equality of keys is equality of stored values (trait KeyExact; proved for the basic types in C04)","finding an object by key gives an object with that key (trait DataObject; DataObjectOps::get is C06)","derived Clone copies"], assumptions=["a stored reference holds a value the key type can store (C04, C05)","the panic on setting a cell that was just made does not happen"], standins=["how often the database is asked, failed loads and retries, several threads at once, on a recording connection over SQLite"], note="every function of ForeignKey, synchronous and asynchronous load included, proved to keep both cells at the one denoted object and its key; get_or_init_once_lock proved for both variants"),
 "C06": dict(units=["C06", "C06keys"], shared=[("C02", r"::(insert_returning_pk|insert_only|insert_or_replace|update|delete|sql_insert\w*|sql_update\w*)$")], harness=True, features_deep=["turso"], secs=5, trusted=COMMON+["the connection answers every statement with success or failure and records it (trait ConnectionMethods)","the code generated for a model: pk_mut is the key, the non-generated columns come in column order, save_many_to_many saves the relations and leaves the row alone (trait DataObject; the relations themselves are C07)","a key decoded from a database value is assigned (trait PrimaryKeyType; proved for AutoPk and for every type that keeps the trait's own initialize and is_valid)","fallible_iterator's nth (transcribed)"], assumptions=["the engine's insert, update and upsert do what C02 and C03 say their text asks for"], standins=["asynchronous variants and the rows other objects have, on a recording connection over SQLite"], note="save, get, try_get and delete proved against the exact statements sent and the key afterwards, for every model shape, key state and failure position; which keys count as assigned, and that an assigned one is never replaced, proved for AutoPk and for every key type that keeps the trait's own methods"),
 "C10": dict(units=["C10", "C10mem"], harness=True, secs=6, trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs","trait Migrations: get_migration and latest give what the collection holds (proved for collections in memory here, for those on disk in C21)","trait Migration: equality is equality of names; apply and downgrade as proved in C11","trait ConnectionMethods: query gives the stored records, has_table says whether the table is there","Vec::contains, Iterator::rev"], assumptions=["every chain of predecessors ends (the loops are proved for partial correctness)"], standins=["in-memory, on-disk and own collections, the asynchronous wrappers migrate_async and unmigrate_async, on SQLite"], note="all_migrations, migrations_since, unapplied_migrations, last_applied_migration, migrate and unmigrate proved against the chain of predecessors, for every collection and set of records; the collections in memory and their migrations proved to give back exactly what was filed, under the name it was filed by"),
 "C11": dict(units=["C11"], harness=True, secs=6, trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs","trait BackendConnection: transaction gives a transaction whose statements reach the database only when commit succeeds (C12; the backends' transactions)","the basic types store as proved in C04"], assumptions=["scripts do not themselves end the transaction"], standins=["faults in script, record and commit on a real SQLite database"], note="apply, mark_applied and downgrade proved: what is committed is exactly script and record in one transaction, and nothing on any failure"),
 "C12": dict(units=["C12"], harness=True, secs=7, features=["turso"], trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs","rusqlite, tokio_postgres and turso: their transaction is consumed by commit or rollback, and one dropped unfinished is rolled back (rusqlite, tokio_postgres)","threads and a current-thread tokio runtime can be created while a Turso transaction is dropped"], assumptions=["async functions run to completion (extracted with async and await removed)","PgTransaction's statement methods (a blanket implementation over client()) and the async adapter's transaction are only searched"], standins=["transaction histories on SQLite, Turso and a recording PostgreSQL server, with the adapters between"], note="get/commit/rollback of the three backends' transactions, their statement methods on SQLite and Turso, Transaction's and the boxed transaction's methods, the three transaction() and Turso's drop proved: statements go to the open transaction or fail, ending it consumes it, ended means refused"),
 "C17": dict(units=["C17"], harness=True, secs=7, features=["turso"], trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs","AsyncAdapter::invoke runs the closure given, once, on the wrapped connection and returns its answer, or an error"], assumptions=["async functions run to completion (extracted with async and await removed)","the contracts say that the answer is the wrapped object's to the same call, not how often it was asked: asking once is searched"], standins=["random calls through every wrapper against a recording connection"], note="all statement methods of Box<dyn BackendConnection>, Box<dyn BackendTransaction>, Connection, Transaction, SQLiteConnection, SqliteTransaction, TursoTransaction, SyncAdapter, AsyncAdapter and DummyConnection proved to pass the same request on and return its answer"),
 "C16": dict(units=["C16"], harness=True, secs=6, trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs and units/maps.rs","diff gives a function of the two schemas (its meaning is C09), resolve_types a function of the schema (C18), a backend's script is a function of schema and operations (its text is C14)","trait MigrationMut: a call that succeeds adds what it was given (proved for MemMigration up to overwriting; for migrations on disk in C21)","derived Clone copies; nonempty's iteration order"], assumptions=["ATable::replace_column on an empty table appends (C09)"], standins=["recording backends and collections, failing steps, histories of migrations in memory against a model"], note="create_migration, create_migration_to, copy_migration, migrations_table and every function of MemMigration and MemMigrations proved; ADB's accessors included"),
 "C14": dict(units=["C14"], harness=True, secs=10, features=["turso"], trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs and units/maps.rs","what PostgreSQL calls its constraints: table_column_key, table_column_fkey, table_pkey","chrono's epoch and first day, serde_json's null","derived Clone copies, derived equality compares every field"], assumptions=["references are resolved before SQL is generated (C18)","columns SQLite and Turso are asked to store are not of a PostgreSQL type","a changed column keeps its name (schemas are compared by name, C09)"], standins=["the meaning of the SQL: histories executed on SQLite, PostgreSQL's text compared with an independent rendering"], note="every function from create_migration_sql down to sqltype proved on all three backends: text of each operation on the schema its predecessors leave"),
 "C19": dict(units=["C19"], harness=True, secs=10, features=["turso"], trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction)","machine model of std in units/prelude.rs","Display of integers and floats, chrono's format, serde_json's to_string and the hex crate give the texts the backends read back (searched)","how databases scan string literals: a quote is doubled, nothing else is special (SQLite, Turso; PostgreSQL with standard_conforming_strings)"], assumptions=[], standins=["literals of every kind as defaults, executed on SQLite and Turso and read back; PostgreSQL's read with an independent scanner"], note="sql_quoted, sql_literal_value and PostgreSQL's variant proved: the literal scans back to exactly the text, whatever follows it"),





  "C21": dict(units=["C21"], harness=True, secs=8, trusted=["Verus and Z3","the extractor's rewrites (DESIGN.md, Extraction); the parameter `__gd` added to the functions is the disk they work on","machine model of std in units/prelude.rs","std::fs: what creating, opening, reading, writing, listing, copying and removing files and directories does to them (`Disk`)","paths are lists of names: join, push, parent and file_name add, drop and give the last","fs2: a lock that is granted is held (its release when the guard is dropped is not modelled)","serde_json reads back what it wrote, a final newline or not (except the last binary place of a fractional default, a known finding)","derived Default and Clone; dyn Filesystem keeps the contract proved for OsFilesystem"], assumptions=["names of migrations, tables and backends hold no path separators","other processes change a migration's types only under its lock (add_type is proved to read them with the lock held)","all_migrations gives the chain (C10)"], standins=["histories on real directories, read back through a fresh handle after each operation; several threads registering types at once"], note="every function of FsMigration, FsMigrations, MigrationInfo, MigrationsState, MigrationLock and OsFilesystem proved, with a frame condition on the whole disk for each"),




}
NA = {
  "C20": "the subject is generated code: the guarantee is about token streams produced by a procedural macro from arbitrary syntax trees; no deductive verifier available here can state or decide a contract relating a macro's input syntax tree to the behaviour of the code it emits, and proving particular expansions would be testing by sample",
  "C22": "the guarantee is about threads, channels and a raw pointer passed to another thread with its lifetime transmuted away; Verus cannot take the unsafe code, dyn closures and async runtime involved, and contracts on the channel operations would assume exactly-once delivery, which is the property",
}
