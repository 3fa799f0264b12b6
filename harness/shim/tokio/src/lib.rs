//! tokio as seen by the code under test. Everything is the real tokio, except:
//!   net::{TcpListener, TcpStream}  an in-memory network driven by a script
//!   signal::ctrl_c                 resolves when the script says so
//!   runtime::{Builder, Runtime}    a seeded single-threaded runtime with a paused clock
//!   spawn, task::spawn             scheduled through a seeded delay wrapper
//!   sync::mpsc::channel            the real channel, plus a weak probe for leaked senders
pub use real::*;

pub mod sim;

#[track_caller]
pub fn spawn<F>(f: F) -> real::task::JoinHandle<F::Output>
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    real::spawn(sim::Chaos::new(f))
}

pub mod task {
    pub use crate::spawn;
    pub use real::task::*;

    /// The real set, whose tasks are scheduled like the others.
    pub struct JoinSet<T>(real::task::JoinSet<T>);

    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            Self(real::task::JoinSet::new())
        }
        #[track_caller]
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send,
        {
            self.0.spawn(crate::sim::Chaos::new(f))
        }
    }
    impl<T> std::ops::Deref for JoinSet<T> {
        type Target = real::task::JoinSet<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> std::ops::DerefMut for JoinSet<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
}

pub mod net {
    pub use crate::sim::{TcpListener, TcpSocket, TcpStream};
    pub use real::net::{lookup_host, ToSocketAddrs};
    pub mod tcp {
        pub use crate::sim::{
            BorrowedReadHalf as ReadHalf, BorrowedWriteHalf as WriteHalf, OwnedReadHalf, OwnedWriteHalf,
        };
    }
}

pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        crate::sim::ctrl_c().await
    }
    #[cfg(unix)]
    pub mod unix {
        pub use real::signal::unix::SignalKind;
        /// SIGINT comes from the script, other signals never come.
        pub struct Signal(bool);
        pub fn signal(kind: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(kind == SignalKind::interrupt()))
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                if self.0 {
                    let _ = crate::sim::ctrl_c().await;
                    return Some(());
                }
                std::future::pending().await
            }
        }
    }
}

pub mod sync {
    pub use real::sync::*;
    pub mod mpsc {
        pub use real::sync::mpsc::*;
        use crate::sim::{channel_cap, register_channel, reluctance};
        use std::ops::{Deref, DerefMut};

        /// The real sender; `send` may yield first, as the real one does when
        /// the task has used up its budget.
        pub struct Sender<T>(real::sync::mpsc::Sender<T>);
        pub struct Receiver<T>(real::sync::mpsc::Receiver<T>);
        pub struct WeakSender<T>(real::sync::mpsc::WeakSender<T>);

        impl<T> Sender<T> {
            pub async fn send(&self, value: T) -> Result<(), error::SendError<T>> {
                reluctance().await;
                self.0.send(value).await
            }
            pub async fn reserve_owned(self) -> Result<OwnedPermit<T>, error::SendError<()>> {
                self.0.reserve_owned().await
            }
            pub fn same_channel(&self, other: &Self) -> bool {
                self.0.same_channel(&other.0)
            }
            pub fn downgrade(&self) -> WeakSender<T> {
                WeakSender(self.0.downgrade())
            }
        }
        impl<T> Receiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                reluctance().await;
                self.0.recv().await
            }
        }
        impl<T> WeakSender<T> {
            pub fn upgrade(&self) -> Option<Sender<T>> {
                self.0.upgrade().map(Sender)
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                Sender(self.0.clone())
            }
        }
        impl<T> Clone for WeakSender<T> {
            fn clone(&self) -> Self {
                WeakSender(self.0.clone())
            }
        }
        impl<T> Deref for Sender<T> {
            type Target = real::sync::mpsc::Sender<T>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<T> Deref for Receiver<T> {
            type Target = real::sync::mpsc::Receiver<T>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<T> DerefMut for Receiver<T> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T> std::fmt::Debug for WeakSender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T: std::fmt::Debug> std::fmt::Debug for Receiver<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }

        #[track_caller]
        pub fn channel<T: Send + 'static>(cap: usize) -> (Sender<T>, Receiver<T>) {
            let (tx, rx) = real::sync::mpsc::channel(channel_cap(cap));
            let weak = tx.downgrade();
            register_channel(Box::new(move || weak.upgrade().map(|s| s.is_closed())));
            (Sender(tx), Receiver(rx))
        }
        #[track_caller]
        pub fn unbounded_channel<T: Send + 'static>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (tx, rx) = real::sync::mpsc::unbounded_channel();
            let weak = tx.downgrade();
            register_channel(Box::new(move || weak.upgrade().map(|s| s.is_closed())));
            (tx, rx)
        }
    }
}

pub mod runtime {
    pub use crate::sim::{Builder, Runtime};
    pub use real::runtime::{EnterGuard, Handle, RuntimeFlavor, TryCurrentError};
}
