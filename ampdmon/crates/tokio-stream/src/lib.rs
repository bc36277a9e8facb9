//! Stand-in for the parts of tokio-stream that ampd uses, over real tokio channels.
pub use futures::stream::Stream;
use std::hash::Hash;
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait StreamExt: Stream {
    fn next(&mut self) -> futures::stream::Next<'_, Self>
    where
        Self: Unpin,
    {
        futures::StreamExt::next(self)
    }
    fn skip_while<F>(self, f: F) -> SkipWhile<Self, F>
    where
        F: FnMut(&Self::Item) -> bool,
        Self: Sized,
    {
        SkipWhile { s: Box::pin(self), f: Some(f) }
    }
    fn map<T, F>(self, f: F) -> futures::stream::Map<Self, F>
    where
        F: FnMut(Self::Item) -> T,
        Self: Sized,
    {
        futures::StreamExt::map(self, f)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}

pub struct SkipWhile<S, F> {
    s: Pin<Box<S>>,
    f: Option<F>,
}
impl<S, F> Unpin for SkipWhile<S, F> {}
impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for SkipWhile<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        loop {
            match self.s.as_mut().poll_next(cx) {
                Poll::Ready(Some(item)) => match self.f.as_mut() {
                    Some(f) => {
                        if !f(&item) {
                            self.f = None;
                            return Poll::Ready(Some(item));
                        }
                    }
                    None => return Poll::Ready(Some(item)),
                },
                other => return other,
            }
        }
    }
}

pub struct StreamMap<K, V> {
    entries: Vec<(K, V)>,
    turn: usize,
}
impl<K, V> Default for StreamMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K, V> StreamMap<K, V> {
    pub fn new() -> Self {
        StreamMap { entries: vec![], turn: 0 }
    }
}
impl<K: Hash + Eq, V> StreamMap<K, V> {
    pub fn insert(&mut self, k: K, stream: V) -> Option<V> {
        let old = self.entries.iter().position(|(x, _)| *x == k).map(|i| self.entries.swap_remove(i).1);
        self.entries.push((k, stream));
        old
    }
}
impl<K: Clone + Hash + Eq + Unpin, V: Stream + Unpin> Stream for StreamMap<K, V> {
    type Item = (K, V::Item);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.turn = self.turn.wrapping_add(7);
        let mut i = 0;
        while i < self.entries.len() {
            let at = (self.turn + i) % self.entries.len();
            match Pin::new(&mut self.entries[at].1).poll_next(cx) {
                Poll::Ready(Some(v)) => {
                    let k = self.entries[at].0.clone();
                    return Poll::Ready(Some((k, v)));
                }
                Poll::Ready(None) => {
                    self.entries.swap_remove(at);
                    i = 0;
                }
                Poll::Pending => i += 1,
            }
        }
        if self.entries.is_empty() {
            Poll::Ready(None)
        } else {
            Poll::Pending
        }
    }
}

pub mod wrappers {
    use super::*;
    use tokio::sync::{broadcast, mpsc};

    pub struct ReceiverStream<T>(mpsc::Receiver<T>);
    impl<T> ReceiverStream<T> {
        pub fn new(rx: mpsc::Receiver<T>) -> Self {
            ReceiverStream(rx)
        }
    }
    impl<T> Stream for ReceiverStream<T> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            self.0.poll_recv(cx)
        }
    }

    pub struct BroadcastStream<T>(
        Pin<Box<dyn Stream<Item = Result<T, errors::BroadcastStreamRecvError>> + Send>>,
    );
    impl<T: 'static + Clone + Send> BroadcastStream<T> {
        pub fn new(rx: broadcast::Receiver<T>) -> Self {
            BroadcastStream(Box::pin(futures::stream::unfold(rx, |mut rx| async move {
                match rx.recv().await {
                    Ok(v) => Some((Ok(v), rx)),
                    Err(broadcast::error::RecvError::Lagged(n)) => {
                        Some((Err(errors::BroadcastStreamRecvError::Lagged(n)), rx))
                    }
                    Err(broadcast::error::RecvError::Closed) => None,
                }
            })))
        }
    }
    impl<T> Stream for BroadcastStream<T> {
        type Item = Result<T, errors::BroadcastStreamRecvError>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.0.as_mut().poll_next(cx)
        }
    }
    pub mod errors {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum BroadcastStreamRecvError {
            Lagged(u64),
        }
        impl std::fmt::Display for BroadcastStreamRecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "channel lagged")
            }
        }
        impl std::error::Error for BroadcastStreamRecvError {}
    }
}
