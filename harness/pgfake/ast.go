package pgfake

type Expr interface{}

type eLit struct {
	kind string // null, bool, num, str
	s    string
	b    bool
}
type eParam struct{ n int }
type eCol struct{ parts []string }
type eStar struct{ table string }
type eUn struct {
	op string
	x  Expr
}
type eBin struct {
	op   string
	l, r Expr
}
type eCast struct {
	x   Expr
	typ Type
}
type eFunc struct {
	name     string
	args     []Expr
	star     bool
	distinct bool
	filter   Expr
	over     bool
	partBy   []Expr
	overOrd  []orderItem
	orderBy  []orderItem
}
type eCase struct {
	operand Expr
	whens   [][2]Expr
	els     Expr
}
type eIsNull struct {
	x   Expr
	not bool
}
type eIsBool struct {
	x   Expr
	val bool
	not bool
}
type eIsDistinct struct {
	l, r Expr
	not  bool
}
type eIn struct {
	x    Expr
	list []Expr
	sub  *selectStmt
	not  bool
}
type eAny struct {
	x   Expr
	op  string
	arr Expr
	sub *selectStmt
	all bool
}
type eBetween struct {
	x, lo, hi Expr
	not       bool
}
type eLike struct {
	x, pat Expr
	not    bool
	ci     bool
}
type eExists struct{ sel *selectStmt }
type eSub struct{ sel *selectStmt }
type eArray struct{ elems []Expr }
type eRow struct{ elems []Expr }
type eIndex struct{ x, i Expr }
type eField struct {
	x    Expr
	name string
}

type orderItem struct {
	x          Expr
	desc       bool
	nullsFirst *bool
}
type selItem struct {
	x     Expr
	alias string
}
type fromItem struct {
	schema, table string
	alias         string
	colAliases    []string
	sub           *selectStmt
	fn            *eFunc
	join          *joinItem
	lateral       bool
}
type joinItem struct {
	kind  string // inner, left, right, full, cross
	l, r  *fromItem
	on    Expr
	using []string
}
type cte struct {
	name string
	cols []string
	stmt Stmt
}
type lockClause struct {
	skip, nowait bool
	of           []string
	share        bool
}
type selectStmt struct {
	with     []cte
	distinct bool
	distinctOn []Expr
	items    []selItem
	into     []string // plpgsql
	from     []*fromItem
	where    Expr
	groupBy  []Expr
	having   Expr
	orderBy  []orderItem
	limit    Expr
	offset   Expr
	lock     *lockClause
	setop    string
	all      bool
	left     *selectStmt
	right    *selectStmt
	values   [][]Expr
}
type setItem struct {
	col string
	x   Expr // nil: DEFAULT
}
type conflictClause struct {
	cols       []string
	exprs      []Expr
	where      Expr
	constraint string
	doUpdate   bool
	sets       []setItem
	updWhere   Expr
}
type insertStmt struct {
	with       []cte
	schema     string
	table      string
	alias      string
	cols       []string
	sel        *selectStmt // nil: DEFAULT VALUES
	conflict   *conflictClause
	returning  []selItem
	intoVars   []string
}
type updateStmt struct {
	with      []cte
	schema    string
	table     string
	alias     string
	sets      []setItem
	multi     []multiSet
	from      []*fromItem
	where     Expr
	returning []selItem
	intoVars  []string
}
type multiSet struct {
	cols []string
	x    Expr
}
type deleteStmt struct {
	with      []cte
	schema    string
	table     string
	alias     string
	using     []*fromItem
	where     Expr
	returning []selItem
	intoVars  []string
}
type copyStmt struct {
	schema, table string
	cols          []string
}
type txStmt struct {
	op        string
	isolation string
}
type setStmt struct{}
type showStmt struct{ name string }
type emptyStmt struct{}

type colSpec struct {
	name    string
	typ     Type
	serial  bool
	notNull bool
	def     Expr
	pk      bool
	unique  bool
	check   Expr
	checkName string
	ref     *fkSpec
}
type fkSpec struct {
	name    string
	cols    []string
	schema  string
	table   string
	refCols []string
	onDelete string
}
type tblConstraint struct {
	name  string
	kind  string // pk, unique, check, fk
	cols  []string
	check Expr
	fk    *fkSpec
}
type createSchema struct {
	name string
	ine  bool
}
type dropSchema struct {
	name    string
	ie      bool
	cascade bool
}
type createTable struct {
	schema, name string
	ine          bool
	cols         []colSpec
	cons         []tblConstraint
}
type createIndex struct {
	name         string
	ine          bool
	unique       bool
	schema       string
	table        string
	exprs        []Expr
	where        Expr
	method       string
}
type createFunction struct {
	schema, name string
	replace      bool
	args         []plVar
	ret          string
	retType      Type
	retTable     []plVar
	setof        bool
	lang         string
	body         string
}
type plVar struct {
	name string
	typ  Type
	rowOf string
	def  Expr
}
type createTrigger struct {
	name          string
	before        bool
	events        []string
	updateOf      []string
	schema, table string
	forEachRow    bool
	when          Expr
	fn            string
}
type dropStmt struct {
	kind    string // table,index,function,trigger,view
	ie      bool
	names   [][2]string
	onTable string
	cascade bool
}
type alterTable struct {
	schema, name string
	ie           bool
	actions      []alterAction
}
type alterAction struct {
	op    string // addcol dropcol altertype setdef dropdef setnn dropnn addcon dropcon renamecol renametable
	ine   bool
	col   colSpec
	name  string
	name2 string
	typ   Type
	using Expr
	def   Expr
	con   tblConstraint
	cascade bool
}
type commentStmt struct{}

type Stmt interface{}
