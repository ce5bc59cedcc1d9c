#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="butane_core/src/"
p("C01","A filter means in SQL exactly what its expression tree says",
 "For every filter expression, however deeply nested, the condition text generated for a backend is read by SQL's own grammar and operator precedence as exactly that expression: the same comparison operators on the same columns, the same and/or/not structure, comparisons with null as null tests, membership lists and subqueries over the named tables, joins and columns. An empty conjunction accepts every row and an empty membership list accepts none.",
 ["inputs","programs"],"all expression trees, all column and table names, all values, every backend",
 "Tests run a few flat filters; meaning has to survive every nesting of and/or/not, in-lists and subqueries, which is an infinite set of trees.",
 [B+"db/helper.rs",B+"db/sqlite.rs",B+"db/pg.rs",B+"db/turso.rs",B+"query/mod.rs"],
 [("sql_for_expr",B+"db/helper.rs"),("sql_column / sql_joins",B+"db/helper.rs"),("backend sql_for_expr wrappers",B+"db/{sqlite,pg,turso}.rs")],
 ["SQL text handed to the backend by query and delete_where"],None,"module-private generator re-exported under the butane_verif cfg")
p("C02","Parameter markers and bound values correspond one to one, in order",
 "In every generated statement each non-integer value of the filter is represented by exactly one parameter marker and never by its own text, and the n-th marker in the text stands for the n-th value bound. On backends with numbered markers the numbers are exactly 1, 2, 3, … with no upper limit other than memory.",
 ["inputs"],"all filters and column lists, any number of values",
 "Tests use at most a handful of values per statement; misalignment or a counter limit appears only for particular shapes or long lists.",
 [B+"db/helper.rs",B+"db/sqlite.rs",B+"db/pg.rs",B+"db/turso.rs"],
 [("PlaceholderSource::next_placeholder",B+"db/{sqlite,pg,turso}.rs"),("sql_for_expr values push",B+"db/helper.rs"),("insert/update placeholder lists",B+"db/helper.rs")],
 ["SQL text and value list handed to the backend"])
p("C03","Generated statements name the right table, columns, order and key",
 "Generated select, insert, upsert and update statements name exactly the requested table and the requested columns in the given order with one marker per column, so that the i-th value lands in the i-th column; an update is restricted to the row whose primary key is the last value bound, and an upsert conflicts on the primary key and rewrites every given column. Sort terms, limit and offset appear exactly as requested, and every table or column name that is a reserved word is quoted. A table is reported to exist exactly when the database has one of that name.",
 ["inputs"],"all table names, column lists (including empty and one column), sort lists, limits and offsets",
 "Tests cover the shapes of a dozen models; the correspondence has to hold for every column list.",
 [B+"db/helper.rs",B+"db/sqlite.rs",B+"db/pg.rs",B+"db/turso.rs"],
 [("sql_select / sql_insert_with_placeholders / sql_update_with_placeholders / sql_order / sql_limit / sql_offset / list_columns",B+"db/helper.rs"),("sql_insert_or_update",B+"db/{sqlite,pg,turso}.rs")],
 ["SQL text handed to the backend"])
p("C04","Rust values convert to and from database values without alteration",
 "Converting any supported Rust value to a database value (owned or borrowed) and back yields an equal value, an absent optional maps to null and only null maps to absent, and owned and borrowed database values convert into each other unchanged. Converting a database value of a different type, or one that does not fit the Rust type, is an error and never a different value, apart from the rounding of a double-precision number read as single precision.",
 ["inputs"],"all values of every supported field type and all database values of every kind",
 "Tests convert a few values per type; wrong-width or wrong-kind values are hardly exercised.",
 [B+"sqlval.rs",B+"autopk.rs",B+"uuid.rs",B+"fkey.rs"],
 [("impl_basic_from_sql / impl_prim_sql / FromSql / ToSql impls",B+"sqlval.rs"),("SqlVal <-> SqlValRef",B+"sqlval.rs"),("SqlVal accessors, is_compatible, sqltype",B+"sqlval.rs")])
p("C05","A value stored in a database is read back as the same value",
 "For every database value of a column type a backend offers, reading back what the backend stores for it yields an equal value, null included (SQLite has no NaN and keeps it as null; PostgreSQL keeps microseconds). On SQLite and Turso reading a stored value of another kind, or one out of the column type's range, is an error rather than a different value; any nonzero integer reads as true. To PostgreSQL a null, and nothing else, is sent as null, and a value is sent only as a parameter of a type that takes it (a custom value only as its own type) and is otherwise an error.",
 ["inputs"],"all values of every kind the backend supports, all column types",
 "Tests store a few ordinary values; range edges and kind mismatches are not reached.",
 [B+"db/sqlite.rs",B+"db/turso.rs",B+"db/pg.rs",B+"custom.rs"],
 [("ToSql and FromSql for SqlValRef, sql_val_from_postgres",B+"db/pg.rs"),("sqlvalref_to_sqlite / sql_valref_from_rusqlite",B+"db/sqlite.rs"),("sqlval_to_turso / turso_value_to_sqlval",B+"db/turso.rs")])
p("C06","Saving inserts a new object once and afterwards updates that same row",
 "Saving an object with an unassigned generated key performs exactly one insert of its non-generated columns and records the key the database returned; saving it when the key is assigned updates the row with that key and changes neither key nor other rows; an object with a caller-chosen key is upserted on that key. Related many-to-many changes are saved after the row, a failed statement leaves the key as it was, and a key once assigned is never replaced; fetching or deleting by key touches only the row with that key.",
 ["inputs","fault_sequences"],"all objects, key states and database answers, including failures at each statement",
 "Tests follow the success path for a few models; key handling under each failure and key state is not enumerated.",
 [B+"lib.rs",B+"autopk.rs",B+"sqlval.rs"],
 [("DataObjectOps::save / get / try_get / delete",B+"lib.rs"),("PrimaryKeyType::initialize / is_valid",B+"sqlval.rs"),("AutoPk",B+"autopk.rs")],
 ["calls made on the connection"],[("AutoPk inner","assigned or not",B+"autopk.rs")])
p("C07","A many-to-many relation changes only its own owner's links, exactly as asked",
 "Saving a many-to-many relation adds exactly one link from its owner to each object added since the last save and removes exactly the links from its owner to the objects removed, and deleting it removes exactly its owner's links; links belonging to other owners are never touched. Adding or removing makes previously loaded contents unavailable until reloaded, adding an unsaved object is refused without effect, and pending changes are not lost when a statement fails before they were applied.",
 ["histories","inputs","fault_sequences"],"all sequences of add, remove, set, save, delete and load, with failures",
 "Tests use one owner and short sequences; cross-owner effects and failure in the middle of a save are not reached.",
 [B+"many.rs"],
 [("Many::add / remove / columns / query / ensure_init",B+"many.rs"),("ManyOps::save / delete / set / load",B+"many.rs")],
 ["calls made on the connection"],[("new_values / removed_values / all_values","pending adds, pending removes, cache",B+"many.rs")])
p("C08","A foreign key always denotes one object, loaded or not",
 "A foreign key built from a key, an object or a stored value reports, stores and compares by that one primary key at all times; loading it fetches the object with exactly that key, at most once, and a failed load is not remembered and can be retried. Loaded contents are never replaced by a later load.",
 ["histories","inputs","fault_sequences"],"all ways to construct and use a reference, all load outcomes",
 "Tests load a few references successfully; failed and repeated loads and every order of use are not enumerated.",
 [B+"fkey.rs",B+"util.rs"],
 [("ForeignKey::from_pk / get / pk / ensure_valpk / load / eq",B+"fkey.rs"),("get_or_init_once_lock",B+"util.rs")],
 None,[("val / valpk","loaded object and key, at least one set",B+"fkey.rs")])
p("C09","Applying a computed schema difference yields exactly the target schema",
 "For any two schemas, applying the computed list of operations in order to the first gives the second: same tables, and in every table same-named columns with identical attributes and nothing else. The list is empty exactly when the schemas already agree, and computing it leaves both schemas unchanged. References of new tables are asked for after every table was added, those of removed tables lifted before any is removed.",
 ["inputs"],"all pairs of schemas with uniquely named tables and columns",
 "Tests diff a few pairs of schemas; the statement quantifies over all pairs.",
 [B+"migrations/adb.rs"],
 [("diff / diff_table",B+"migrations/adb.rs"),("ADB::transform_with",B+"migrations/adb.rs"),("ATable::add_column / replace_column / remove_column",B+"migrations/adb.rs")])
p("C10","Migrating applies each missing migration once, oldest first; undoing reverses it",
 "The list of migrations is the chain of predecessors of the latest one, oldest first; migrating a database applies exactly those after the last one recorded as applied, in that order and each once, stopping at the first failure, and does nothing when the latest is recorded. Undoing starts at the last recorded one and downgrades it and its predecessors, newest first, each once, stopping at the first failure.",
 ["histories","inputs","fault_sequences"],"all migration chains of any length, all sets of recorded migrations, failure at any step",
 "Tests use chains of two or three migrations without failures.",
 [B+"migrations/mod.rs",B+"migrations/memmigrations.rs"],
 [("Migrations::all_migrations / migrations_since / unapplied_migrations / last_applied_migration / migrate / unmigrate",B+"migrations/mod.rs")],
 ["sequence of apply and downgrade calls"])
p("C11","A migration and its bookkeeping take effect together or not at all",
 "Applying a migration runs the up script stored for the connection's backend and records the migration's name inside one transaction that is committed only after both succeeded; undoing it runs the down script and removes exactly that record in the same way. If any step fails the transaction is not committed and the error is reported; a missing script changes nothing.",
 ["fault_sequences","crash_points"],"failure of any statement, at every point",
 "Tests apply migrations that succeed; failure between the schema change and the record is not exercised.",
 [B+"migrations/migration.rs"],
 [("Migration::apply / mark_applied / downgrade",B+"migrations/migration.rs")],
 ["calls made on the transaction and its fate"])
p("C12","A transaction is ended once and refuses all use afterwards",
 "A transaction delivers every statement issued on it to its own backend transaction until it is committed or rolled back; a commit commits and a rollback rolls back exactly once, and every later operation, commit or rollback on the ended transaction is an error without effect. Dropping an unfinished transaction, and a commit that fails, leaves none of its statements' effects, and the connection usable.",
 ["histories"],"all sequences of operations on a transaction, each backend",
 "Tests cover commit and rollback once each; use after the end and error outcomes are hardly exercised.",
 [B+"db/sqlite.rs",B+"db/pg.rs",B+"db/turso.rs",B+"db/mod.rs"],
 [("SqliteTransaction / PgTransaction / TursoTransaction get, commit, rollback",B+"db/{sqlite,pg,turso}.rs"),("Transaction",B+"db/mod.rs")])
p("C13","Result rows are delivered once each, in order, with checked access",
 "Iterating over buffered results delivers every row exactly once in the order the database returned them and then ends for good; the current row is the one most recently delivered. Reading a column outside the row, or a buffered row's column as a type it does not hold, is an error and never another column's value, and copying rows for another thread preserves every column.",
 ["inputs","histories"],"all row sequences and all call sequences",
 "Tests iterate small results to the end; positions, repeated calls after the end and mismatched access are not covered.",
 [B+"db/connmethods.rs",B+"db/turso.rs",B+"db/pg.rs"],
 [("VecRows / VecRow / vec_from_backend_rows / MapDeref",B+"db/connmethods.rs"),("TursoRow",B+"db/turso.rs")])
p("C14","Generated table definitions carry every column attribute",
 "For every schema operation the SQL generated for a backend creates, alters or drops exactly the named table and columns, and each column definition carries its name, a storage type for its declared type, and exactly its nullability, primary-key, uniqueness, auto-increment and reference attributes. An operation without SQL on a backend contributes nothing, operations keep their order, and columns added to existing tables get their declared default or the type's neutral one.",
 ["inputs"],"all schema operations over all tables and columns, each backend",
 "Golden files cover a few models; the mapping has to hold for every attribute combination.",
 [B+"db/sqlite.rs",B+"db/pg.rs",B+"db/turso.rs",B+"db/helper.rs"],
 [("sql_for_op / create_table / define_column / define_constraint / sqltype / add_column / remove_column / change_column / copy_table",B+"db/{sqlite,pg,turso}.rs"),("column_default",B+"db/helper.rs")])
p("C15","A query asks the database for exactly what was configured",
 "A query sends the database exactly its table, the result type's columns, the filter, limit, offset and sort terms most recently set (sort terms accumulating in call order), however the settings were ordered; asking for the first result asks for one row and returns it if there is one. Deleting through a query deletes exactly the rows matching its filter, and field expressions build the comparison they are named after on their own column and value.",
 ["programs","inputs"],"all chains of builder calls and all database answers",
 "Tests use a few chains of settings; the statement is about every chain.",
 [B+"query/mod.rs",B+"query/fieldexpr.rs"],
 [("Query builder, fetch, load, load_first, delete",B+"query/mod.rs"),("FieldExpr / ManyFieldExpr",B+"query/fieldexpr.rs")],
 ["calls made on the connection"])
p("C16","A new migration records exactly the change from its predecessor",
 "Creating a migration between two schemas stores, for every requested backend, an up script for the operations from the old schema to the new and a down script for the operations back, links it to its predecessor, and stores every table of the new schema, marked as modified exactly when an operation changed it. When the schemas agree nothing is created; the first migration also creates the bookkeeping table; copying a migration preserves predecessor, tables, types and scripts.",
 ["inputs"],"all pairs of schemas, backend lists and predecessors",
 "Tests create a few migrations; every kind of change and predecessor state is not enumerated.",
 [B+"migrations/mod.rs",B+"migrations/memmigrations.rs"],
 [("create_migration_to / copy_migration / migrations_table",B+"migrations/mod.rs"),("MemMigration / MemMigrations",B+"migrations/memmigrations.rs")])
p("C17","Wrappers forward every database call unchanged",
 "A connection or transaction wrapper passes each operation to what it wraps exactly once, with the same table, columns, values, filter, limit, offset and sort arguments, and returns its answer unchanged; when the wrapped object is unusable it reports an error and passes nothing on.",
 ["programs","inputs"],"all operations, all arguments, every wrapper",
 "Tests go through some wrappers for some operations; an exchanged or dropped argument in one of some sixty forwarding methods is not noticed.",
 [B+"db/mod.rs",B+"db/macros.rs",B+"db/sqlite.rs",B+"db/dummy.rs",B+"db/sync_adapter.rs",B+"db/adapter.rs"],
 [("connection_method_wrapper",B+"db/macros.rs"),("ConnectionMethods impls",B+"db/mod.rs")])
p("C18","Deferred column types resolve to the referenced key's type or fail",
 "Resolving a schema replaces every column type and reference that names another table's key or a registered custom type by what that name finally stands for, through chains of any length and independent of declaration order, and leaves already known types unchanged. If any column type stays unknown the resolution is an error, and resolving always terminates.",
 ["inputs"],"all schemas, including cyclic and dangling references",
 "Tests resolve short chains; cycles, long chains and every order are not covered.",
 [B+"migrations/adb.rs"],
 [("ADB::resolve_types / AColumn::resolve_type / resolve_reference_target / TypeResolver",B+"migrations/adb.rs")])
p("C19","Literals in generated SQL denote the value, whatever it contains",
 "A default value written into generated SQL is a literal that the database reads back as exactly that value; text containing quotes or any other characters cannot end the literal or change the statement, and values that cannot be written as a literal are refused.",
 ["inputs"],"all values of every kind",
 "Tests use defaults without quotes.",
 [B+"db/helper.rs"],
 [("sql_literal_value",B+"db/helper.rs")])
p("C20","Model code generation round-trips every field",
 "For every model declaration, the generated code writes each stored field to the column of the same name and reads it back into the same field, leaving out generated keys when inserting, and declares the schema that matches.",
 ["programs"],"all model declarations","Tests compile some dozen models.",
 [B+"codegen/dbobj.rs",B+"codegen/mod.rs",B+"codegen/migration.rs"],
 [("impl_dbobject / impl_dataresult",B+"codegen/dbobj.rs")])
p("C21","Migrations kept on disk give back what they were given",
 "Migrations kept in a directory (FsMigrations, as returned by from_root), whatever the sequence of calls on it: (1) a migration gives back, through any later handle on the directory, the tables it was last given (add_modified_table), without those deleted, the registered types, the predecessor, the names of the backends and, for each, the up and down scripts as they were given, each ended with a newline if it had none (also an empty one); a script or predecessor it was not given is reported as absent. (2) A table told to be unmodified (add_unmodified_table) is the one of the migration that last modified it: the base recorded by the named migration, or else that migration itself. (3) A call on one migration leaves every other migration, and everything else the same migration was given, unchanged. (4) add_migration makes a migration the latest exactly when there is none or it follows the latest; detach_latest_migration makes its predecessor the latest and leaves its files alone, and detached_migration_paths lists exactly the directories outside the chain; latest and get_migration give the migration of that name or none. (5) delete_db leaves only the predecessor, clear_current removes only the current state, delete_migrations all but it; copy_to gives the other all that this one has. (6) Types registered by several processes or threads at once are all kept. What cannot be read or written is reported as an error (latest, which cannot report one, then gives none). Excluded: names that hold path separators, and the last binary place of a fractional default (known finding).",
 ["histories","schedules"],"all sequences of operations on a directory of migrations, all schemas, names and scripts","Tests write and read a few migrations in one process.",
 [B+"migrations/fsmigrations.rs",B+"migrations/fs.rs"],
 [("FsMigration / FsMigrations / MigrationLock",B+"migrations/fsmigrations.rs"),("OsFilesystem",B+"migrations/fs.rs")])
p("C22","Asynchronous and synchronous adapters complete every call exactly once",
 "A connection adapted between synchronous and asynchronous use executes every call exactly once, in issue order, returns its own result to its own caller, and never touches a caller's data after the call returned.",
 ["schedules"],"all interleavings of callers, worker thread and cancellation","Tests run few interleavings.",
 [B+"db/adapter.rs",B+"db/sync_adapter.rs"],
 [("AsyncAdapter / AsyncAdapterEnv",B+"db/adapter.rs")])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
