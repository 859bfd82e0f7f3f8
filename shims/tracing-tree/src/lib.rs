//! A layer with the interface of the real one that writes nothing: logs are not looked at here.
use tracing_subscriber::Layer;
pub struct HierarchicalLayer<W = ()>(W);
impl HierarchicalLayer {
    pub fn new(_indent: usize) -> Self {
        HierarchicalLayer(())
    }
}
impl<W> HierarchicalLayer<W> {
    pub fn with_ansi(self, _: bool) -> Self {
        self
    }
    pub fn with_indent_lines(self, _: bool) -> Self {
        self
    }
    pub fn with_deferred_spans(self, _: bool) -> Self {
        self
    }
    pub fn with_writer<W2>(self, w: W2) -> HierarchicalLayer<W2> {
        HierarchicalLayer(w)
    }
}
impl<S: tracing_core::Subscriber, W: 'static> Layer<S> for HierarchicalLayer<W> {}
