from prop import P
P("S01","What is inserted is what select gives, and an update changes only its row",
 "Inserting an entity makes one row for it and one for each entity within it or in its containers, linked by the keys the database gave, with each member's value in its own column; it returns the key of the entity's row and leaves the argument alone unless it was moved. A container inserted with keys gives every row all the keys. Selecting by a key gives every value of the entity and its child entities in order for exactly the rows with all the given keys (their own, or those of entities within), none if there is none. An update sets the columns of exactly the row that has all the given keys. No text, whatever it contains, changes what a statement means, and no other row or table changes.",
 ["histories","inputs"],"all histories of inserts, updates and selects over entities of every nesting, on a real database",
 "Tests compare statement texts and one recorded call sequence; whether the statements mean the right thing, in every order and for several keys or rows, is never run.",
 ["include/nbdl/sql_db/insert.hpp","include/nbdl/sql_db/select.hpp","include/nbdl/sql_db/update.hpp","include/nbdl/sql_db/statement/insert.hpp","include/nbdl/sql_db/statement/select.hpp","include/nbdl/sql_db/statement/update.hpp","include/nbdl/sql_db/detail/string_sum.hpp","include/nbdl/sql_db/statement/detail/table_alias_list.hpp","include/nbdl/sql_db/traits.hpp"],
 [("child rows first, then the row with their keys","insert_impl"),("statements built at compile time","statement::insert, select, update")],
 state=[("rows","one table per entity type","sql_db/statement")],
 observe=["rows of all tables after each statement","returned keys and selected values"])
