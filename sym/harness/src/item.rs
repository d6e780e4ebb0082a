//! The flat preorder form in which the expected and the actual syntax tree are compared.
#[derive(Clone, Copy)]
pub struct Item {
    /// what: a node tag, or one of the leaf kinds below
    pub tag: u32,
    /// offset in the source text (leaf `TEXT`)
    pub start: usize,
    /// length of the text, or the value of the leaf `VAL`
    pub val: usize,
}
pub const fn t(tag: u32) -> Item {
    Item { tag, start: 0, val: 0 }
}
macro_rules! tags { ($($n:ident),* $(,)?) => { #[allow(non_camel_case_types, dead_code)] #[repr(u32)] enum Tag { $($n),* } $(pub const $n: u32 = Tag::$n as u32;)* } }
tags! {
    END, TEXT, VAL, NONE,
    PROG_MOD, PROG_SCRIPT, PART_DIR, PART_DECL, PART_STMT,
    D_VAR, D_FN, D_CLASS, D_IMPORT, D_EXPORT, DECLARATOR,
    FUNC, CLASS, PARAM_EXPR, PARAM_PAT,
    X_DEFAULT, X_NAMED, X_ALL, X_DECL, X_EXPR, X_SPECS, XSPEC,
    M_NORMAL, M_DEFAULT, M_NS,
    E_ARRAY, E_ARROW, E_PLACEHOLDER, E_ASSIGN, E_AWAIT, E_BINARY, E_CLASS, E_CALL, E_COND, E_FN, E_IDENT, E_LIT,
    E_LOGICAL, E_MEMBER, E_META, E_NEW, E_OBJECT, E_SEQ, E_SPREAD, E_SUPER, E_TAGGED, E_THIS, E_UNARY, E_UPDATE, E_YIELD,
    ELEM, HOLE, PROP, PROP_SPREAD, K_LIT, K_EXPR, K_PAT, V_EXPR, V_PAT, V_NONE,
    L_NULL, L_STRING, L_NUMBER, L_BOOL, L_REGEX, L_TEMPLATE, QUASI,
    A_PAT, A_EXPR, BODY_FN, BODY_EXPR,
    PT_IDENT, PT_OBJECT, PT_ARRAY, PT_REST, PT_ASSIGN, PP_PAT, PP_EXPR, OP_ASSIGN, OP_REST,
    S_EXPR, S_BLOCK, S_NOP, S_DEBUGGER, S_WITH, S_RETURN, S_LABELED, S_BREAK, S_CONTINUE, S_IF, S_SWITCH, S_CASE,
    S_THROW, S_TRY, S_WHILE, S_DOWHILE, S_FOR, S_FORIN, S_FOROF, S_VAR, I_VAR, I_EXPR, F_EXPR, F_VAR, F_PAT, CATCH,
}
pub const fn ts(tag: u32) -> Item { t(tag) }
