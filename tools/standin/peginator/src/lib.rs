//! The part of the peginator runtime that hun_law_grammar uses. The real crate does not exist in this sandbox.
#[derive(Debug, Clone)]
pub struct ParseError {
    pub position: usize,
}

impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "could not be parsed at byte {}", self.position)
    }
}

impl std::error::Error for ParseError {}

pub trait ParseTracer {}

#[derive(Debug, Default)]
pub struct NoopTracer;

impl ParseTracer for NoopTracer {}

#[derive(Debug, Default, Clone)]
pub struct ParseSettings {}

pub trait PegParserAdvanced<TC>: Sized {
    fn parse_advanced<TT: ParseTracer>(
        s: &str,
        settings: &ParseSettings,
        user_defined: TC,
    ) -> Result<Self, ParseError>;
}
