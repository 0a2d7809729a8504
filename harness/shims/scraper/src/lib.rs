//! Type-level stand-in: no page has any links, there is no network.
pub struct Html;
pub struct Selector;
pub struct ElementRef;
pub struct Element;
impl Html {
    pub fn parse_document(_: &str) -> Self {
        Html
    }
    pub fn select(&self, _: &Selector) -> std::vec::IntoIter<ElementRef> {
        vec![].into_iter()
    }
}
impl Selector {
    pub fn parse(_: &str) -> Result<Self, String> {
        Ok(Selector)
    }
}
impl ElementRef {
    pub fn value(&self) -> Element {
        Element
    }
}
impl Element {
    pub fn attr(&self, _: &str) -> Option<&'static str> {
        None
    }
}
