//! Observing the code under test.
use crate::lexref::{LexError, Tok};
use sneturfahi::lex::{Error, Token};
use sneturfahi::Span;
use std::ops::Range;

pub fn range(span: Span) -> Range<usize> {
	span.start as usize..span.end as usize
}

/// all words, with a bound against endless iterators
pub fn words(text: &str) -> Result<Vec<Range<usize>>, String> {
	let mut out = vec![];
	for span in sneturfahi::decompose(text) {
		if out.len() > text.len() {
			return Err("more words than characters".into());
		}
		out.push(range(span));
	}
	Ok(out)
}

pub fn slices<'a>(text: &'a str, words: &[Range<usize>]) -> Result<Vec<&'a str>, String> {
	words.iter().map(|w| text.get(w.clone()).ok_or_else(|| format!("word {w:?} is not a piece of the text"))).collect()
}

pub fn tok(t: &Token) -> Tok {
	Tok { class: format!("{:?}", t.selmaho), experimental: t.experimental, start: t.span.start as usize, end: t.span.end as usize }
}

pub fn error(e: &Error) -> LexError {
	match e {
		Error::DelimitedQuoteMissingSeparator { initiator_span } => LexError::MissingSeparator(range(*initiator_span)),
		Error::DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span } => {
			LexError::Unclosed(range(*initiator_span), range(*starting_delimiter_span))
		}
		Error::PauseDelimitedQuoteEof { initiator_span } => LexError::PauseEof(range(*initiator_span)),
	}
}

/// all tokens up to the first error; also checks that nothing follows the end or the error
pub fn lex(text: &str) -> Result<(Vec<Token>, Option<LexError>), String> {
	let mut lexer = sneturfahi::lex(text);
	let mut tokens = vec![];
	let mut failed = None;
	for item in lexer.by_ref() {
		if tokens.len() > text.len() + 2 {
			return Err("more tokens than characters".into());
		}
		match item {
			Ok(t) => tokens.push(t),
			Err(e) => {
				failed = Some(error(&e));
				break;
			}
		}
	}
	for _ in 0..4 {
		if let Some(more) = lexer.next() {
			return Err(format!("after the {}, the lexer still produced {more:?}", if failed.is_some() { "error" } else { "end" }));
		}
	}
	Ok((tokens, failed))
}
