#!/usr/bin/env python3
"""rewrite the fixed entries of known_findings.json"""
import json
F=[
("C01","327b920","nested and/or conditions lost their grouping: `a and (b or c)` was generated as `a and b or c`"),
("C01","343184c","an empty conjunction or IN list gave SQL no database accepts"),
("C01","4a39c86","a reserved word used as column name was not quoted in conditions"),
("C02","9ac35bf","PostgreSQL placeholders beyond $127 overflowed an 8-bit counter"),
("C03","627be59","a reserved word used as key column was not quoted in RETURNING"),
("C01","50ad2cc","a subquery with two joins ran them together without a space"),
("C13","8c7176a","current() of buffered rows was the row after the one last delivered"),
("C04","dcb718b","a database value of the wrong kind or size for the Rust type panicked or was truncated instead of an error"),
("C05","c4f9ade","an integer outside the column type's range was truncated instead of an error"),
("C07","17d08eb","removing a value from one owner's collection deleted it from every owner's; a save that failed lost the pending additions and removals"),
("C08","2948014","two threads storing the same foreign key at once panicked"),
("C10","fdffff0","undoing migrations stopped silently at a predecessor that cannot be read"),
("C12","d060b23","has_table inside a Turso transaction ended the transaction"),
("C12","88e9509","a Turso transaction dropped in a current-thread runtime panicked, outside a runtime stayed open, and one whose commit failed stayed open"),
("C19","4bf5e8f","default values holding quotes ended their literal: SQL injection through text, JSON; dates and times were not quoted; infinite numbers and texts with NUL gave invalid SQL instead of an error"),
("C19","40fecf3","binary defaults on PostgreSQL were bit strings"),
("C19","d9cec55","Turso split SQL at semicolons inside string literals and comments"),
("C14","13b5869","removing a unique or key column on SQLite and Turso gave SQL these databases refuse"),
("C14","8ea3c9a","a nullable column added on SQLite and Turso lost its reference"),
("C14","c8253d7","PostgreSQL migrations with several operations saw the schema before the first of them: changes of columns of tables created in the same migration were dropped"),
("C14","9a91f10","on PostgreSQL an automatic column could not be added or change type (SERIAL with a default, SET DATA TYPE SERIAL)"),
("C03","0ea454d","on Turso has_table did not find a table whose name has capitals"),
("C21","703fc18","writing an empty up or down script of a migration to disk panicked"),
("C21","1f42e2d","FsMigration::add_type ignored a lock it could not get (for the first type of a migration always, as the directory was missing), so types registered at once were lost, and took types it could not read for none"),
]
p='/verif/known_findings.json'; k=json.load(open(p))
k['fixed']=["fixed: property=%s %s %s"%t for t in F]
open(p,'w').write(json.dumps(k,indent=1,ensure_ascii=False)+"\n")
