use combine::Parser;
pub mod comments;
pub mod keywords;
pub mod numbers;
pub mod punct;
pub mod regex;
pub mod strings;
pub mod sym;
pub mod tokens;

use super::{is_line_term, whitespace_or_line_term, ScannerState, OpenCurlyKind};
use keywords::Keyword;
use punct::Punct;
pub use refs::tokens::RefToken;
use tokens::Span;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RefItem {
    pub token: RefToken,
    pub span: Span,
}

impl RefItem {
    pub fn new(token: RefToken, span: Span) -> Self {
        Self { token, span }
    }
    pub fn is_string(&self) -> bool {
        self.token.is_string()
    }
    pub fn is_eof(&self) -> bool {
        self.token.is_eof()
    }
    pub fn is_template(&self) -> bool {
        self.token.is_template_head()
        || self.token.is_template_body() 
        || self.token.is_template_tail()

    }
}

#[allow(unused)]
pub struct RefScanner {
    pub stream: String,
    pub eof: bool,
    pub cursor: usize,
    pub spans: Vec<Span>,
    last_open_paren_idx: usize,
    replacement: usize,
    pub pending_new_line: bool,
    curly_stack: Vec<OpenCurlyKind>,
    pending: Option<usize>,
}

impl RefScanner {
    pub fn new(text: impl Into<String>) -> Self {
        let text = text.into();
        let cursor = text.len() - text.trim_start_matches(super::whitespace).len();
        Self {
            stream: text,
            eof: false,
            cursor,
            spans: Vec::new(),
            last_open_paren_idx: 0,
            replacement: 0,
            pending_new_line: false,
            curly_stack: Vec::new(),
            pending: None,
        }
    }
}

impl Iterator for RefScanner {
    type Item = RefItem;
    fn next(&mut self) -> Option<RefItem> {
        self.get_next_token(true)
    }
}

impl RefScanner {
    /// Attempts to look ahead 1 token
    ///
    /// Similar to how `Peekable::peek` works however the
    /// returned value will not be a borrowed `Item`. Since
    /// there isn't a borrow happening this essentially duplicates
    /// the cost of calling `next`.
    ///
    /// ```
    /// # extern crate ress;
    /// # use ress::{Scanner,Token};
    /// # fn main() {
    /// let js = "function thing() { return; }";
    /// let mut s = Scanner::new(js);
    /// assert_eq!(s.look_ahead().unwrap().token, Token::keyword("function"));
    /// assert_eq!(s.next().unwrap().token, Token::keyword("function"));
    /// # }
    /// ```
    pub fn look_ahead(&mut self) -> Option<RefItem> {
        self.get_next_token(false)
    }
    /// Skip any upcoming comments to get the
    /// next valid js token
    pub fn skip_comments(&mut self) {
        debug!(target: "ress", "skipping comments");
        let mut new_cursor = self.cursor;
        while let Some(ref item) = self.next() {
            if let RefToken::Comment(_) = item.token {
                new_cursor = self.cursor;
            } else {
                break;
            }
        }
        debug!(target: "ress", "skipped {} bytes worth of comments", new_cursor.saturating_sub(self.cursor));
        self.cursor = new_cursor;
    }
    /// Get a copy of the scanner's current state
    pub fn get_state(&self) -> ScannerState {
        let mut curly_stack = self.curly_stack.clone();
        if let Some(idx) = self.pending {
            let mut tmp = Self { stream: String::new(), eof: false, cursor: 0, spans: Vec::new(), last_open_paren_idx: 0,
                replacement: 0, pending_new_line: false, curly_stack, pending: None };
            tmp.curly(idx, true);
            curly_stack = tmp.curly_stack;
        }
        ScannerState {
            cursor: self.cursor,
            spans_len: self.spans.len(),
            last_paren: self.last_open_paren_idx,
            replacement: self.replacement,
            curly_stack,
        }
    }
    /// Set the scanner's current state to the state provided
    pub fn set_state(&mut self, state: ScannerState) {
        self.cursor = state.cursor;
        self.spans.truncate(state.spans_len);
        self.last_open_paren_idx = state.last_paren;
        self.replacement = state.replacement;
        self.curly_stack = state.curly_stack;
        self.pending = None;
    }

    /// Reads the next slot of the symbolic token array (see `sym`).  Everything around it --
    /// `next`, `look_ahead`, `skip_comments`, `get_state`, `set_state`, the regex/divide and the
    /// template heuristics -- is the code of ress 0.6.3, quirks included.
    fn get_next_token(&mut self, advance_cursor: bool) -> Option<RefItem> {
        if self.eof {
            return None;
        };
        self.resolve_pending();
        let idx = self.cursor / sym::width();
        let tok = sym::kind(idx);
        let slashes = sym::is_slash(idx);
        if slashes != 0 {
            // `/`, `/=` or a regular expression: the text alone does not decide which
            let start = self.is_regex_start();
            sym::assume((slashes == 2) == start);
        }
        let looking = self.looking_for_template_end();
        // a `}` while a template is open continues the template, and only then
        sym::assume(!(looking & sym::is_close_brace(idx)) & (looking | !sym::is_template_cont(idx)));
        let span = Span::new(self.cursor, self.cursor + sym::len(idx));
        if advance_cursor {
            self.pending = Some(idx);
            self.spans.push(span.clone());
            let paren = self.spans.len() - 1;
            self.last_open_paren_idx =
                sym::select(sym::is_open_paren(idx), paren, self.last_open_paren_idx);
            self.eof = sym::is_eof(idx);
            self.cursor = (idx + 1) * sym::width();
            self.pending_new_line = sym::newline_around(idx);
        } else {
            self.curly(idx, false);
        }
        Some(RefItem::new(tok, span))
    }

    /// Applies the effect of the last token on the brace stack.  The real scanner does it when it
    /// produces the token; nothing reads the stack before the next call, so doing it lazily
    /// changes nothing but the point at which the symbolic executor has to fork.
    fn resolve_pending(&mut self) {
        if let Some(idx) = self.pending.take() {
            self.curly(idx, true);
        }
    }
    fn curly(&mut self, idx: usize, advance: bool) {
        let looking = self.looking_for_template_end();
        let op = sym::curly_op(idx);
        if op == sym::CURLY_NONE {
            return;
        }
        if op == sym::CURLY_OPEN {
            self.curly_stack.push(OpenCurlyKind::Block);
        } else if op == sym::CURLY_CLOSE {
            let _ = self.curly_stack.pop();
        } else if op == sym::CURLY_TAIL {
            if advance && looking {
                let _ = self.curly_stack.pop();
            }
        } else if op == sym::CURLY_HEAD && advance {
            self.curly_stack.push(OpenCurlyKind::Template);
        }
    }

    fn looking_for_template_end(&self) -> bool {
        if let Some(last) = self.curly_stack.last() {
            last == &OpenCurlyKind::Template
        } else {
            false
        }
    }

    fn is_regex_start(&self) -> bool {
        if let Some(last_token) = self.last_token() {
            if (!last_token.is_keyword() && !last_token.is_punct())
                || last_token.matches_keyword(&Keyword::This)
                || last_token.matches_punct(&Punct::CloseBracket)
            {
                false
            } else if last_token.matches_punct(&Punct::CloseParen) {
                self.check_for_conditional()
            } else if last_token.matches_punct(&Punct::CloseBrace) {
                self.check_for_func()
            } else {
                true
            }
        } else {
            true
        }
    }

    fn last_token(&self) -> Option<RefToken> {
        if self.spans.is_empty() {
            return None;
        }
        let mut current_idx = self.spans.len().saturating_sub(1);
        while current_idx > 0 {
            if let Some(t) = self.token_for(&self.spans[current_idx]) {
                if t.is_comment() {
                    current_idx = current_idx.saturating_sub(1);
                } else {
                    return Some(t);
                }
            }
        }
        None
    }

    fn check_for_conditional(&self) -> bool {
        if let Some(before) = self.nth_before_last_open_paren(1) {
            before.matches_keyword(&Keyword::If)
                || before.matches_keyword(&Keyword::For)
                || before.matches_keyword(&Keyword::While)
                || before.matches_keyword(&Keyword::With)
        } else {
            true
        }
    }

    fn check_for_func(&self) -> bool {
        if let Some(before) = self.nth_before_last_open_paren(1) {
            if before.is_ident() {
                if let Some(three_before) = self.nth_before_last_open_paren(3) {
                    return Self::check_for_expression(&three_before);
                }
            } else if before.matches_keyword(&Keyword::Function) {
                if let Some(two_before) = self.nth_before_last_open_paren(2) {
                    return Self::check_for_expression(&two_before);
                } else {
                    return false;
                }
            }
        }
        true
    }

    fn check_for_expression(token: &RefToken) -> bool {
        token.matches_punct(&Punct::OpenParen)
            && !token.matches_punct(&Punct::OpenBrace)
            && !token.matches_punct(&Punct::OpenBracket)
            && !token.matches_punct(&Punct::Assign)
            && !token.matches_punct(&Punct::AddAssign)
            && !token.matches_punct(&Punct::SubtractAssign)
            && !token.matches_punct(&Punct::MultiplyAssign)
            && !token.matches_punct(&Punct::ExponentAssign)
            && !token.matches_punct(&Punct::DivideAssign)
            && !token.matches_punct(&Punct::ModuloAssign)
            && !token.matches_punct(&Punct::LeftShiftAssign)
            && !token.matches_punct(&Punct::RightShiftAssign)
            && !token.matches_punct(&Punct::UnsignedRightShiftAssign)
            && !token.matches_punct(&Punct::BitwiseAndAssign)
            && !token.matches_punct(&Punct::BitwiseOrAssign)
            && !token.matches_punct(&Punct::BitwiseXOrAssign)
            && !token.matches_punct(&Punct::Comma)
            && !token.matches_punct(&Punct::Plus)
            && !token.matches_punct(&Punct::Minus)
            && !token.matches_punct(&Punct::Asterisk)
            && !token.matches_punct(&Punct::Exponent)
            && !token.matches_punct(&Punct::ForwardSlash)
            && !token.matches_punct(&Punct::Modulo)
            && !token.matches_punct(&Punct::Increment)
            && !token.matches_punct(&Punct::Decrement)
            && !token.matches_punct(&Punct::LeftShift)
            && !token.matches_punct(&Punct::RightShift)
            && !token.matches_punct(&Punct::UnsignedRightShift)
            && !token.matches_punct(&Punct::And)
            && !token.matches_punct(&Punct::Pipe)
            && !token.matches_punct(&Punct::Caret)
            && !token.matches_punct(&Punct::Not)
            && !token.matches_punct(&Punct::BitwiseNot)
            && !token.matches_punct(&Punct::LogicalAnd)
            && !token.matches_punct(&Punct::LogicalOr)
            && !token.matches_punct(&Punct::QuestionMark)
            && !token.matches_punct(&Punct::Colon)
            && !token.matches_punct(&Punct::StrictEquals)
            && !token.matches_punct(&Punct::Equal)
            && !token.matches_punct(&Punct::GreaterThanEqual)
            && !token.matches_punct(&Punct::LessThanEqual)
            && !token.matches_punct(&Punct::LessThan)
            && !token.matches_punct(&Punct::GreaterThan)
            && !token.matches_punct(&Punct::NotEqual)
            && !token.matches_punct(&Punct::StrictNotEquals)
            && !token.matches_keyword(&Keyword::In)
            && !token.matches_keyword(&Keyword::TypeOf)
            && !token.matches_keyword(&Keyword::InstanceOf)
            && !token.matches_keyword(&Keyword::New)
            && !token.matches_keyword(&Keyword::Return)
            && !token.matches_keyword(&Keyword::Case)
            && !token.matches_keyword(&Keyword::Delete)
            && !token.matches_keyword(&Keyword::Throw)
            && !token.matches_keyword(&Keyword::Void)
    }

    fn nth_before_last_open_paren(&self, n: usize) -> Option<RefToken> {
        if self.spans.len() < n {
            return None;
        }
        // the real scanner panics here (ress defect): such inputs are outside every claim
        sym::assume(self.last_open_paren_idx >= n);
        self.token_for(&self.spans[self.last_open_paren_idx - n])
    }

    fn token_for(&self, span: &Span) -> Option<RefToken> {
        // the real scanner re-reads the text of the span with the plain token parser
        Some(sym::reread_kind(span.start / sym::width()))
    }

    pub fn string_for(&self, span: &Span) -> Option<String> {
        if self.stream.len() < span.start || self.stream.len() < span.end {
            None
        } else {
            Some(self.stream[span.start..span.end].to_string())
        }
    }
}

