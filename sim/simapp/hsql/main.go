// hsql is a client of the simulator's own: it changes and inspects data bases.
//
//	hsql FILE age N     gives every book another title and copies all N times
//	hsql FILE check     prints what SQLite's integrity check says
package main

import (
	"database/sql"
	"fmt"
	"log"
	"os"
	"strconv"
	"strings"

	_ "github.com/mattn/go-sqlite3"
	_ "vsim.local/simapp"
)

func check(err error) {
	if err != nil {
		log.Fatal(err)
	}
}

func main() {
	db, err := sql.Open("sqlite3", os.Args[1])
	check(err)
	switch os.Args[2] {
	case "age":
		n, _ := strconv.Atoi(os.Args[3])
		tx, err := db.Begin()
		check(err)
		rows, err := tx.Query("select * from books limit 1")
		check(err)
		cols, err := rows.Columns()
		check(err)
		check(rows.Close())
		var rest []string
		for _, c := range cols {
			if c != "id" {
				rest = append(rest, c)
			}
		}
		l := strings.Join(rest, ",")
		_, err = tx.Exec("update books set title = title || ' of old', author = author || ' Senior'")
		check(err)
		for i := 0; i < n; i++ {
			_, err = tx.Exec("insert into books(" + l + ") select " + l + " from books")
			check(err)
		}
		check(tx.Commit())
	case "check":
		rows, err := db.Query("pragma integrity_check")
		check(err)
		for rows.Next() {
			var s string
			check(rows.Scan(&s))
			fmt.Println(s)
		}
		check(rows.Err())
	}
	check(db.Close())
}
