//! Walks the syntax tree ressa produced, in step with the expected one.
//!
//! Structure (node kinds, presence of optional parts, list lengths) is followed with branches;
//! leaf contents (names, operators, flags, literal text) are only accumulated into `ok`, so that
//! one path of the symbolic execution covers every leaf content.
use crate::api::{eq, memeq};
use crate::item::*;
use resast::prelude::*;

pub struct Cmp<'a> {
    pub exp: &'a [Item],
    pub text: &'a [u8],
    pub pos: usize,
    pub ok: bool,
    /// structure differs: nothing after this point is comparable
    pub dead: bool,
}

impl<'a> Cmp<'a> {
    pub fn new(exp: &'a [Item], text: &'a [u8]) -> Cmp<'a> {
        Cmp { exp, text, pos: 0, ok: true, dead: false }
    }
    pub fn tag(&mut self, tag: u32) -> bool {
        if self.dead {
            return false;
        }
        if self.pos >= self.exp.len() || self.exp[self.pos].tag != tag {
            self.dead = true;
            return false;
        }
        self.pos += 1;
        true
    }
    pub fn val(&mut self, v: usize) {
        let p = self.pos;
        if self.tag(VAL) {
            self.ok &= eq(v, self.exp[p].val);
        }
    }
    pub fn text(&mut self, s: &str) {
        let p = self.pos;
        if self.tag(TEXT) {
            let e = self.exp[p];
            self.ok &= memeq(s.as_ptr(), s.len(), unsafe { self.text.as_ptr().add(e.start) }, e.val);
        }
    }
    pub fn same(&self) -> bool {
        self.ok & !self.dead & (self.pos == self.exp.len())
    }

    pub fn program(&mut self, p: &Program) {
        let parts = match p {
            Program::Mod(p) => { self.tag(PROG_MOD); p }
            Program::Script(p) => { self.tag(PROG_SCRIPT); p }
        };
        self.parts(parts);
    }
    pub fn parts(&mut self, p: &[ProgramPart]) {
        for x in p {
            if self.dead { return }
            self.part(x);
        }
        self.tag(END);
    }
    pub fn part(&mut self, p: &ProgramPart) {
        match p {
            ProgramPart::Dir(d) => {
                if self.tag(PART_DIR) {
                    self.lit(&d.expr);
                    self.text(&d.dir);
                }
            }
            ProgramPart::Decl(d) => { if self.tag(PART_DECL) { self.decl(d) } }
            ProgramPart::Stmt(s) => { if self.tag(PART_STMT) { self.stmt(s) } }
        }
    }
    fn decl(&mut self, d: &Decl) {
        match d {
            Decl::Variable(k, v) => { if self.tag(D_VAR) { self.val(kind(k)); self.declarators(v) } }
            Decl::Function(f) => { if self.tag(D_FN) { self.func(f) } }
            Decl::Class(c) => { if self.tag(D_CLASS) { self.class(c) } }
            Decl::Import(m) => {
                if !self.tag(D_IMPORT) { return }
                for s in &m.specifiers {
                    match s {
                        ImportSpecifier::Normal(i, l) => { if self.tag(M_NORMAL) { self.text(i); self.opt_text(l) } }
                        ImportSpecifier::Default(i) => { if self.tag(M_DEFAULT) { self.text(i) } }
                        ImportSpecifier::Namespace(i) => { if self.tag(M_NS) { self.text(i) } }
                    }
                }
                self.tag(END);
                self.lit(&m.source);
            }
            Decl::Export(m) => {
                if !self.tag(D_EXPORT) { return }
                match &**m {
                    ModExport::Default(d) => {
                        if !self.tag(X_DEFAULT) { return }
                        match d {
                            DefaultExportDecl::Decl(d) => { if self.tag(X_DECL) { self.decl(d) } }
                            DefaultExportDecl::Expr(e) => { if self.tag(X_EXPR) { self.expr(e) } }
                        }
                    }
                    ModExport::Named(n) => {
                        if !self.tag(X_NAMED) { return }
                        match n {
                            NamedExportDecl::Decl(d) => { if self.tag(X_DECL) { self.decl(d) } }
                            NamedExportDecl::Specifier(s, from) => {
                                if !self.tag(X_SPECS) { return }
                                for s in s {
                                    if self.tag(XSPEC) { self.text(&s.local); self.opt_text(&s.exported) }
                                }
                                self.tag(END);
                                match from { Some(l) => self.lit(l), None => { self.tag(NONE); } }
                            }
                        }
                    }
                    ModExport::All(l) => { if self.tag(X_ALL) { self.lit(l) } }
                }
            }
        }
    }
    fn declarators(&mut self, v: &[VariableDecl]) {
        for d in v {
            if self.dead { return }
            self.declarator(d);
        }
        self.tag(END);
    }
    fn declarator(&mut self, d: &VariableDecl) {
        if self.tag(DECLARATOR) {
            self.pat(&d.id);
            self.opt_expr(&d.init);
        }
    }
    fn opt_text(&mut self, s: &Option<String>) {
        match s { Some(s) => self.text(s), None => { self.tag(NONE); } }
    }
    fn opt_expr(&mut self, e: &Option<Expr>) {
        match e { Some(e) => self.expr(e), None => { self.tag(NONE); } }
    }
    fn func(&mut self, f: &Function) {
        if !self.tag(FUNC) { return }
        self.opt_text(&f.id);
        self.val(f.generator as usize);
        self.val(f.is_async as usize);
        self.params(&f.params);
        self.parts(&f.body);
    }
    fn params(&mut self, p: &[FunctionArg]) {
        for p in p {
            if self.dead { return }
            match p {
                FunctionArg::Expr(e) => { if self.tag(PARAM_EXPR) { self.expr(e) } }
                FunctionArg::Pat(p) => { if self.tag(PARAM_PAT) { self.pat(p) } }
            }
        }
        self.tag(END);
    }
    fn class(&mut self, c: &Class) {
        if !self.tag(CLASS) { return }
        self.opt_text(&c.id);
        match &c.super_class { Some(e) => self.expr(e), None => { self.tag(NONE); } }
        for p in &c.body {
            if self.dead { return }
            self.prop(p);
        }
        self.tag(END);
    }
    fn prop(&mut self, p: &Property) {
        if !self.tag(PROP) { return }
        self.val(match p.kind { PropertyKind::Init => 0, PropertyKind::Get => 1, PropertyKind::Set => 2, PropertyKind::Ctor => 3, PropertyKind::Method => 4 });
        self.val(p.method as usize);
        self.val(p.computed as usize);
        self.val(p.short_hand as usize);
        match &p.key {
            PropertyKey::Literal(l) => { if self.tag(K_LIT) { self.lit(l) } }
            PropertyKey::Expr(e) => { if self.tag(K_EXPR) { self.expr(e) } }
            PropertyKey::Pat(p) => { if self.tag(K_PAT) { self.pat(p) } }
        }
        match &p.value {
            PropertyValue::Expr(e) => { if self.tag(V_EXPR) { self.expr(e) } }
            PropertyValue::Pat(p) => { if self.tag(V_PAT) { self.pat(p) } }
            PropertyValue::None => { self.tag(V_NONE); }
        }
    }
    fn lit(&mut self, l: &Literal) {
        match l {
            Literal::Null => { self.tag(L_NULL); }
            Literal::String(s) => { if self.tag(L_STRING) { self.text(s) } }
            Literal::Number(s) => { if self.tag(L_NUMBER) { self.text(s) } }
            Literal::Boolean(b) => { if self.tag(L_BOOL) { self.val(*b as usize) } }
            Literal::RegEx(r) => { if self.tag(L_REGEX) { self.text(&r.pattern); self.text(&r.flags) } }
            Literal::Template(t) => { if self.tag(L_TEMPLATE) { self.template(t) } }
        }
    }
    fn template(&mut self, t: &TemplateLiteral) {
        let mut i = 0;
        loop {
            if self.dead { return }
            if i < t.quasis.len() {
                let q = &t.quasis[i];
                if self.tag(QUASI) {
                    self.val(q.tail as usize);
                    self.text(&q.cooked);
                    self.text(&q.raw);
                }
            }
            if i < t.expressions.len() {
                self.expr(&t.expressions[i]);
            } else if i + 1 >= t.quasis.len() {
                break;
            }
            i += 1;
        }
        self.tag(END);
    }
    fn exprs(&mut self, v: &[Expr]) {
        for e in v {
            if self.dead { return }
            self.expr(e);
        }
        self.tag(END);
    }
    pub fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Array(a) => {
                if !self.tag(E_ARRAY) { return }
                for x in a {
                    if self.dead { return }
                    match x { Some(e) => { if self.tag(ELEM) { self.expr(e) } } None => { self.tag(HOLE); } }
                }
                self.tag(END);
            }
            Expr::ArrowFunction(f) => {
                if !self.tag(E_ARROW) { return }
                self.opt_text(&f.id);
                self.val(f.expression as usize);
                self.val(f.generator as usize);
                self.val(f.is_async as usize);
                self.params(&f.params);
                match &f.body {
                    ArrowFunctionBody::FunctionBody(b) => { if self.tag(BODY_FN) { self.parts(b) } }
                    ArrowFunctionBody::Expr(e) => { if self.tag(BODY_EXPR) { self.expr(e) } }
                }
            }
            Expr::ArrowParamPlaceHolder(_, _) => { self.tag(E_PLACEHOLDER); }
            Expr::Assignment(a) => {
                if !self.tag(E_ASSIGN) { return }
                self.val(assign_op(&a.operator));
                match &a.left {
                    AssignmentLeft::Pat(p) => { if self.tag(A_PAT) { self.pat(p) } }
                    AssignmentLeft::Expr(e) => { if self.tag(A_EXPR) { self.expr(e) } }
                }
                self.expr(&a.right);
            }
            Expr::Await(e) => { if self.tag(E_AWAIT) { self.expr(e) } }
            Expr::Binary(b) => {
                if !self.tag(E_BINARY) { return }
                self.val(bin_op(&b.operator));
                self.expr(&b.left);
                self.expr(&b.right);
            }
            Expr::Class(c) => { if self.tag(E_CLASS) { self.class(c) } }
            Expr::Call(c) => { if self.tag(E_CALL) { self.expr(&c.callee); self.exprs(&c.arguments) } }
            Expr::Conditional(c) => {
                if !self.tag(E_COND) { return }
                self.expr(&c.test);
                self.expr(&c.consequent);
                self.expr(&c.alternate);
            }
            Expr::Function(f) => { if self.tag(E_FN) { self.func(f) } }
            Expr::Ident(i) => { if self.tag(E_IDENT) { self.text(i) } }
            Expr::Literal(l) => { if self.tag(E_LIT) { self.lit(l) } }
            Expr::Logical(l) => {
                if !self.tag(E_LOGICAL) { return }
                self.val(match l.operator { LogicalOperator::Or => 0, LogicalOperator::And => 1 });
                self.expr(&l.left);
                self.expr(&l.right);
            }
            Expr::Member(m) => {
                if !self.tag(E_MEMBER) { return }
                self.val(m.computed as usize);
                self.expr(&m.object);
                self.expr(&m.property);
            }
            Expr::MetaProperty(m) => { if self.tag(E_META) { self.text(&m.meta); self.text(&m.property) } }
            Expr::New(n) => { if self.tag(E_NEW) { self.expr(&n.callee); self.exprs(&n.arguments) } }
            Expr::Object(o) => {
                if !self.tag(E_OBJECT) { return }
                for p in o {
                    if self.dead { return }
                    match p {
                        ObjectProperty::Property(p) => self.prop(p),
                        ObjectProperty::Spread(e) => { if self.tag(PROP_SPREAD) { self.expr(e) } }
                    }
                }
                self.tag(END);
            }
            Expr::Sequence(s) => { if self.tag(E_SEQ) { self.exprs(s) } }
            Expr::Spread(e) => { if self.tag(E_SPREAD) { self.expr(e) } }
            Expr::Super => { self.tag(E_SUPER); }
            Expr::TaggedTemplate(t) => { if self.tag(E_TAGGED) { self.expr(&t.tag); self.template(&t.quasi) } }
            Expr::This => { self.tag(E_THIS); }
            Expr::Unary(u) => {
                if !self.tag(E_UNARY) { return }
                self.val(un_op(&u.operator));
                self.val(u.prefix as usize);
                self.expr(&u.argument);
            }
            Expr::Update(u) => {
                if !self.tag(E_UPDATE) { return }
                self.val(match u.operator { UpdateOperator::Increment => 0, UpdateOperator::Decrement => 1 });
                self.val(u.prefix as usize);
                self.expr(&u.argument);
            }
            Expr::Yield(y) => {
                if !self.tag(E_YIELD) { return }
                self.val(y.delegate as usize);
                match &y.argument { Some(e) => self.expr(e), None => { self.tag(NONE); } }
            }
        }
    }
    pub fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Identifier(i) => { if self.tag(PT_IDENT) { self.text(i) } }
            Pat::Object(o) => {
                if !self.tag(PT_OBJECT) { return }
                for x in o {
                    if self.dead { return }
                    match x {
                        ObjectPatPart::Assignment(p) => { if self.tag(OP_ASSIGN) { self.prop(p) } }
                        ObjectPatPart::Rest(p) => { if self.tag(OP_REST) { self.pat(p) } }
                    }
                }
                self.tag(END);
            }
            Pat::Array(a) => {
                if !self.tag(PT_ARRAY) { return }
                for x in a {
                    if self.dead { return }
                    match x {
                        None => { self.tag(HOLE); }
                        Some(ArrayPatPart::Pat(p)) => { if self.tag(PP_PAT) { self.pat(p) } }
                        Some(ArrayPatPart::Expr(e)) => { if self.tag(PP_EXPR) { self.expr(e) } }
                    }
                }
                self.tag(END);
            }
            Pat::RestElement(p) => { if self.tag(PT_REST) { self.pat(p) } }
            Pat::Assignment(a) => { if self.tag(PT_ASSIGN) { self.pat(&a.left); self.expr(&a.right) } }
        }
    }
    fn block(&mut self, b: &BlockStmt) {
        self.parts(b)
    }
    pub fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Expr(e) => { if self.tag(S_EXPR) { self.expr(e) } }
            Stmt::Block(b) => { if self.tag(S_BLOCK) { self.block(b) } }
            Stmt::Empty => { self.tag(S_NOP); }
            Stmt::Debugger => { self.tag(S_DEBUGGER); }
            Stmt::With(w) => { if self.tag(S_WITH) { self.expr(&w.object); self.stmt(&w.body) } }
            Stmt::Return(e) => { if self.tag(S_RETURN) { self.opt_expr(e) } }
            Stmt::Labeled(l) => { if self.tag(S_LABELED) { self.text(&l.label); self.stmt(&l.body) } }
            Stmt::Break(l) => { if self.tag(S_BREAK) { self.opt_text(l) } }
            Stmt::Continue(l) => { if self.tag(S_CONTINUE) { self.opt_text(l) } }
            Stmt::If(i) => {
                if !self.tag(S_IF) { return }
                self.expr(&i.test);
                self.stmt(&i.consequent);
                match &i.alternate { Some(s) => self.stmt(s), None => { self.tag(NONE); } }
            }
            Stmt::Switch(s) => {
                if !self.tag(S_SWITCH) { return }
                self.expr(&s.discriminant);
                for c in &s.cases {
                    if self.dead { return }
                    if self.tag(S_CASE) {
                        self.opt_expr(&c.test);
                        self.parts(&c.consequent);
                    }
                }
                self.tag(END);
            }
            Stmt::Throw(e) => { if self.tag(S_THROW) { self.expr(e) } }
            Stmt::Try(t) => {
                if !self.tag(S_TRY) { return }
                self.block(&t.block);
                match &t.handler {
                    Some(h) => {
                        if self.tag(CATCH) {
                            match &h.param { Some(p) => self.pat(p), None => { self.tag(NONE); } }
                            self.block(&h.body);
                        }
                    }
                    None => { self.tag(NONE); }
                }
                match &t.finalizer { Some(b) => self.block(b), None => { self.tag(NONE); } }
            }
            Stmt::While(w) => { if self.tag(S_WHILE) { self.expr(&w.test); self.stmt(&w.body) } }
            Stmt::DoWhile(w) => { if self.tag(S_DOWHILE) { self.stmt(&w.body); self.expr(&w.test) } }
            Stmt::For(f) => {
                if !self.tag(S_FOR) { return }
                match &f.init {
                    None => { self.tag(NONE); }
                    Some(LoopInit::Variable(k, v)) => { if self.tag(I_VAR) { self.val(kind(k)); self.declarators(v) } }
                    Some(LoopInit::Expr(e)) => { if self.tag(I_EXPR) { self.expr(e) } }
                }
                self.opt_expr(&f.test);
                self.opt_expr(&f.update);
                self.stmt(&f.body);
            }
            Stmt::ForIn(f) => {
                if !self.tag(S_FORIN) { return }
                self.left(&f.left);
                self.expr(&f.right);
                self.stmt(&f.body);
            }
            Stmt::ForOf(f) => {
                if !self.tag(S_FOROF) { return }
                self.val(f.is_await as usize);
                self.left(&f.left);
                self.expr(&f.right);
                self.stmt(&f.body);
            }
            Stmt::Var(v) => { if self.tag(S_VAR) { self.declarators(v) } }
        }
    }
    fn left(&mut self, l: &LoopLeft) {
        match l {
            LoopLeft::Expr(e) => { if self.tag(F_EXPR) { self.expr(e) } }
            LoopLeft::Variable(k, d) => { if self.tag(F_VAR) { self.val(kind(k)); self.declarator(d) } }
            LoopLeft::Pat(p) => { if self.tag(F_PAT) { self.pat(p) } }
        }
    }
}

pub fn kind(k: &VariableKind) -> usize {
    match k { VariableKind::Var => 0, VariableKind::Let => 1, VariableKind::Const => 2 }
}
pub fn un_op(o: &UnaryOperator) -> usize {
    match o {
        UnaryOperator::Minus => 0, UnaryOperator::Plus => 1, UnaryOperator::Not => 2, UnaryOperator::Tilde => 3,
        UnaryOperator::TypeOf => 4, UnaryOperator::Void => 5, UnaryOperator::Delete => 6,
    }
}
pub fn bin_op(o: &BinaryOperator) -> usize {
    use BinaryOperator::*;
    match o {
        Equal => 0, NotEqual => 1, StrictEqual => 2, StrictNotEqual => 3, LessThan => 4, GreaterThan => 5,
        LessThanEqual => 6, GreaterThanEqual => 7, LeftShift => 8, RightShift => 9, UnsignedRightShift => 10, Plus => 11,
        Minus => 12, Times => 13, Over => 14, Mod => 15, Or => 16, XOr => 17, And => 18, In => 19, InstanceOf => 20, PowerOf => 21,
    }
}
pub fn assign_op(o: &AssignmentOperator) -> usize {
    use AssignmentOperator::*;
    match o {
        Equal => 0, PlusEqual => 1, MinusEqual => 2, TimesEqual => 3, DivEqual => 4, ModEqual => 5, LeftShiftEqual => 6,
        RightShiftEqual => 7, UnsignedRightShiftEqual => 8, OrEqual => 9, XOrEqual => 10, AndEqual => 11, PowerOfEqual => 12,
    }
}
