package main

import (
	"github.com/akito0107/xsqlparser/sqlast"
)

func (g *G) insert() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.InsertStmt{}
	g.kw("INSERT", "INTO")
	n.TableName = g.objectName()
	if g.t.Bool() {
		g.p("(")
		n.Columns = g.identList()
		g.p(")")
	}
	sm := g.mark()
	if g.t.P(1, 3) {
		st := qSelect
		if n.Columns != nil {
			st = qAny
		}
		s := &sqlast.SubQuerySource{SubQuery: g.query(st)}
		g.span(s, sm)
		n.Source = s
	} else {
		s := &sqlast.ConstructorSource{}
		g.kw("VALUES")
		for i, l := 0, g.list(1, 2); l.ok(i); i++ {
			if i > 0 {
				g.p(",")
			}
			rm := g.mark()
			g.p("(")
			r := &sqlast.RowValueExpr{Values: g.exprList()}
			g.p(")")
			g.span(r, rm)
			s.Rows = append(s.Rows, r)
		}
		g.span(s, sm)
		n.Source = s
	}
	if g.opt(1, 4) {
		g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
		n.UpdateAssignments = g.assignments()
	}
	g.span(n, m)
	return n
}

func (g *G) assignments() []*sqlast.Assignment {
	var out []*sqlast.Assignment
	for i, l := 0, g.list(1, 2); l.ok(i); i++ {
		if i > 0 {
			g.p(",")
		}
		m := g.mark()
		a := &sqlast.Assignment{ID: g.ident()}
		g.p("=")
		a.Value = g.expr()
		g.span(a, m)
		out = append(out, a)
	}
	return out
}

func (g *G) update() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.UpdateStmt{}
	g.kw("UPDATE")
	n.TableName = g.objectName()
	g.kw("SET")
	n.Assignments = g.assignments()
	if g.t.P(2, 3) {
		g.kw("WHERE")
		n.Selection = g.expr()
	}
	g.span(n, m)
	return n
}

func (g *G) delete() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.DeleteStmt{}
	g.kw("DELETE", "FROM")
	n.TableName = g.objectName()
	if g.t.P(2, 3) {
		g.kw("WHERE")
		n.Selection = g.expr()
	}
	g.span(n, m)
	return n
}

// defaultExpr is an expression that may be followed by column constraints.
func (g *G) defaultExpr() sqlast.Node {
	if g.t.P(1, 2) {
		return g.literal()
	}
	return g.exprAt(lvAdd)
}

func (g *G) columnDef() *sqlast.ColumnDef {
	g.t.Begin("column")
	defer g.t.End()
	m := g.mark()
	c := &sqlast.ColumnDef{Name: g.ident(), DataType: g.dataType()}
	// attributes stand in any order; they are printed DEFAULT, AUTO_INCREMENT, constraints
	head := len(g.can)
	var def, auto, cons []gtok
	take := func() []gtok {
		x := append([]gtok(nil), g.can[head:]...)
		g.can = g.can[:head:head]
		return x
	}
	for i, l := 1, g.list(2, 5); l.ok(i); i++ {
		switch g.t.Weighted(5, 2, 1) {
		case 0:
			c.Constraints = append(c.Constraints, g.columnConstraint())
			cons = append(cons, take()...)
		case 1:
			if c.Default != nil {
				break
			}
			g.kw("DEFAULT")
			c.Default = g.defaultExpr()
			def = take()
		case 2:
			am := g.mark()
			g.kw("AUTO_INCREMENT")
			a := &sqlast.AutoIncrement{}
			g.span(a, am)
			c.MyDataTypeDecoration = append(c.MyDataTypeDecoration, a)
			auto = append(auto, take()...)
		}
	}
	g.can = append(append(append(g.can, def...), auto...), cons...)
	g.span(c, m)
	return c
}

func (g *G) columnConstraint() *sqlast.ColumnConstraint {
	m := g.mark()
	n := &sqlast.ColumnConstraint{}
	if g.t.P(1, 4) {
		g.kw("CONSTRAINT")
		n.Name = g.ident()
	}
	sm := g.mark()
	var s sqlast.ColumnConstraintSpec
	switch g.t.N(5) {
	case 0:
		g.kw("NOT", "NULL")
		s = &sqlast.NotNullColumnSpec{}
	case 1:
		g.kw("UNIQUE")
		s = &sqlast.UniqueColumnSpec{}
	case 2:
		g.kw("PRIMARY", "KEY")
		s = &sqlast.UniqueColumnSpec{IsPrimaryKey: true}
	case 3:
		g.kw("REFERENCES")
		r := &sqlast.ReferencesColumnSpec{TableName: g.objectName()}
		g.p("(")
		r.Columns = g.identList()
		g.p(")")
		s = r
	case 4:
		g.kw("CHECK")
		g.p("(")
		s = &sqlast.CheckColumnSpec{Expr: g.expr()}
		g.p(")")
	}
	g.span(s, sm)
	n.Spec = s
	g.span(n, m)
	return n
}

func (g *G) tableConstraint() *sqlast.TableConstraint {
	m := g.mark()
	n := &sqlast.TableConstraint{}
	if g.t.Bool() {
		g.kw("CONSTRAINT")
		n.Name = g.ident()
	}
	sm := g.mark()
	var s sqlast.TableConstraintSpec
	switch g.t.N(4) {
	case 0:
		g.kw("UNIQUE")
		if g.t.P(1, 3) {
			g.skw("KEY")
		}
		g.p("(")
		s = &sqlast.UniqueTableConstraint{Columns: g.identList()}
		g.p(")")
	case 1:
		g.kw("PRIMARY", "KEY")
		g.p("(")
		s = &sqlast.UniqueTableConstraint{IsPrimary: true, Columns: g.identList()}
		g.p(")")
	case 2:
		g.kw("FOREIGN", "KEY")
		g.p("(")
		r := &sqlast.ReferentialTableConstraint{Columns: g.identList()}
		g.p(")")
		g.kw("REFERENCES")
		km := g.mark()
		k := &sqlast.ReferenceKeyExpr{TableName: g.ident()}
		g.p("(")
		k.Columns = g.identList()
		g.p(")")
		g.span(k, km)
		r.KeyExpr = k
		s = r
	case 3:
		g.kw("CHECK")
		g.p("(")
		s = &sqlast.CheckTableConstraint{Expr: g.expr()}
		g.p(")")
	}
	g.span(s, sm)
	n.Spec = s
	g.span(n, m)
	return n
}

func (g *G) createTable() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.CreateTableStmt{}
	g.kw("CREATE", "TABLE")
	if g.t.P(1, 4) {
		g.kw("IF", "NOT", "EXISTS")
		n.NotExists = true
	}
	n.Name = g.objectName()
	if !g.t.P(1, 30) {
		g.p("(")
		for i, l := 0, g.list(2, 3); l.ok(i); i++ {
			if i > 0 {
				g.p(",")
			}
			if g.t.P(1, 4) {
				n.Elements = append(n.Elements, g.tableConstraint())
			} else {
				n.Elements = append(n.Elements, g.columnDef())
			}
		}
		g.p(")")
	}
	for i, l := 0, g.list(1, 4); l.ok(i + 1); i++ {
		if i > 0 {
			if g.t.Bool() {
				g.srcTok(gPunct, ",")
			}
			g.canTok(gPunct, ",")
		}
		om := g.mark()
		if g.t.Bool() {
			o := &sqlast.MyEngine{}
			g.kw("ENGINE")
			if g.t.Bool() {
				g.p("=")
				o.Equal = true
			}
			o.Name = g.ident()
			g.span(o, om)
			n.Options = append(n.Options, o)
		} else {
			o := &sqlast.MyCharset{}
			if g.t.Bool() {
				g.kw("DEFAULT")
				o.IsDefault = true
			}
			g.kw("CHARSET")
			if g.t.Bool() {
				g.p("=")
				o.Equal = true
			}
			o.Name = g.ident()
			g.span(o, om)
			n.Options = append(n.Options, o)
		}
	}
	g.span(n, m)
	return n
}

func (g *G) createView() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.CreateViewStmt{}
	g.kw("CREATE")
	if g.t.P(1, 3) {
		g.kw("MATERIALIZED")
		n.Materialized = true
	}
	g.kw("VIEW")
	n.Name = g.objectName()
	g.kw("AS")
	n.Query = g.query(qAny)
	g.span(n, m)
	return n
}

func (g *G) createIndex() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.CreateIndexStmt{}
	g.kw("CREATE")
	if g.t.P(1, 3) {
		g.kw("UNIQUE")
		n.IsUnique = true
	}
	g.kw("INDEX")
	if g.t.P(2, 3) {
		n.IndexName = g.ident()
	}
	g.kw("ON")
	n.TableName = g.objectName()
	if g.t.P(1, 3) {
		g.kw("USING")
		n.MethodName = g.ident()
	}
	if g.t.P(3, 4) {
		g.p("(")
		n.ColumnNames = g.identList()
		g.p(")")
	}
	if g.t.P(1, 3) {
		g.kw("WHERE")
		n.Selection = g.expr()
	}
	g.span(n, m)
	return n
}

func (g *G) alterTable() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.AlterTableStmt{}
	g.kw("ALTER", "TABLE")
	n.TableName = g.objectName()
	am := g.mark()
	var a sqlast.AlterTableAction
	switch g.t.N(5) {
	case 0:
		g.kw("ADD", "COLUMN")
		a = &sqlast.AddColumnTableAction{Column: g.columnDef()}
	case 1:
		g.kw("ADD")
		a = &sqlast.AddConstraintTableAction{Constraint: g.tableConstraint()}
	case 2:
		g.kw("DROP", "CONSTRAINT")
		x := &sqlast.DropConstraintTableAction{Name: g.ident()}
		if g.t.P(1, 3) {
			g.kw("CASCADE")
			x.Cascade = true
		}
		a = x
	case 3:
		g.kw("DROP", "COLUMN")
		x := &sqlast.RemoveColumnTableAction{Name: g.ident()}
		if g.t.P(1, 3) {
			g.kw("CASCADE")
			x.Cascade = true
		}
		a = x
	case 4:
		g.kw("ALTER", "COLUMN")
		x := &sqlast.AlterColumnTableAction{ColumnName: g.ident()}
		cm := g.mark()
		var ca sqlast.AlterColumnAction
		switch g.t.N(5) {
		case 0:
			g.kw("SET", "DEFAULT")
			ca = &sqlast.SetDefaultColumnAction{Default: g.defaultExpr()}
		case 1:
			g.kw("DROP", "DEFAULT")
			ca = &sqlast.DropDefaultColumnAction{}
		case 2:
			g.kw("SET", "NOT", "NULL")
			ca = &sqlast.PGSetNotNullColumnAction{}
		case 3:
			g.kw("DROP", "NOT", "NULL")
			ca = &sqlast.PGDropNotNullColumnAction{}
		case 4:
			g.kw("TYPE")
			ca = &sqlast.PGAlterDataTypeColumnAction{DataType: g.dataType()}
		}
		g.span(ca, cm)
		x.Action = ca
		a = x
	}
	g.span(a, am)
	n.Action = a
	g.span(n, m)
	return n
}

func (g *G) dropTable() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.DropTableStmt{}
	g.kw("DROP", "TABLE")
	if g.t.P(1, 3) {
		g.kw("IF", "EXISTS")
		n.IfExists = true
	}
	n.TableNames = []*sqlast.ObjectName{g.objectName()}
	if g.t.P(1, 3) {
		g.kw("CASCADE")
		n.Cascade = true
	}
	g.span(n, m)
	return n
}

func (g *G) dropIndex() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.DropIndexStmt{}
	g.kw("DROP", "INDEX")
	n.IndexNames = g.identList()
	g.span(n, m)
	return n
}

func (g *G) explain() sqlast.Stmt {
	m := g.mark()
	n := &sqlast.ExplainStmt{}
	g.kw("EXPLAIN")
	n.Stmt = g.stmt()
	g.span(n, m)
	return n
}

func (g *G) ddl() sqlast.Stmt {
	g.t.Begin("stmt")
	defer g.t.End()
	switch g.t.Weighted(8, 2, 3, 6, 1, 1, 1) {
	case 0:
		return g.createTable()
	case 1:
		return g.createView()
	case 2:
		return g.createIndex()
	case 3:
		return g.alterTable()
	case 4:
		return g.dropTable()
	case 5:
		return g.dropIndex()
	}
	return g.explain()
}

func (g *G) dml() sqlast.Stmt {
	g.t.Begin("stmt")
	defer g.t.End()
	switch g.t.Weighted(3, 2, 2) {
	case 0:
		return g.insert()
	case 1:
		return g.update()
	}
	return g.delete()
}

// stmt is any statement.
func (g *G) stmt() sqlast.Stmt {
	g.t.Begin("stmt")
	defer g.t.End()
	switch g.t.Weighted(6, 3, 4) {
	case 0:
		return g.query(qSelect)
	case 1:
		return g.dml()
	}
	return g.ddl()
}
