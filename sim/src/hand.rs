//! Scriptable handlers for the simulations.
use std::ops::ControlFlow;
use vinezombie::client::channel::{ChannelSpec, Sender, SenderRef};
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::{ClientState, Handler, SelfMadeHandler};
use vinezombie::ircmsg::ServerMsg;

type HFn<V> =
    dyn FnMut(&ServerMsg<'_>, &mut ClientState, &mut QueueEditGuard<'_>, &mut SenderRef<'_, V>) -> ControlFlow<()>;

/// A handler made of closures. The simulation is single-threaded, so the
/// closures may share `Rc` state with the harness.
pub struct FnH<V> {
    pub f: Box<HFn<V>>,
    pub owning: Box<dyn Fn() -> bool>,
    pub on_add: Option<Box<dyn Fn(&ClientState, QueueEditGuard<'_>)>>,
    pub on_drop: Option<Box<dyn FnMut()>>,
}
unsafe impl<V> Send for FnH<V> {}
impl<V> FnH<V> {
    pub fn new(
        f: impl FnMut(&ServerMsg<'_>, &mut ClientState, &mut QueueEditGuard<'_>, &mut SenderRef<'_, V>) -> ControlFlow<()>
            + 'static,
    ) -> FnH<V> {
        FnH { f: Box::new(f), owning: Box::new(|| false), on_add: None, on_drop: None }
    }
    pub fn owning(mut self, f: impl Fn() -> bool + 'static) -> Self {
        self.owning = Box::new(f);
        self
    }
}
impl<V> Drop for FnH<V> {
    fn drop(&mut self) {
        if let Some(f) = &mut self.on_drop {
            f()
        }
    }
}
impl<V: 'static + Send> Handler for FnH<V> {
    type Value = V;
    fn handle(
        &mut self,
        msg: &ServerMsg<'_>,
        state: &mut ClientState,
        mut queue: QueueEditGuard<'_>,
        mut channel: SenderRef<'_, V>,
    ) -> ControlFlow<()> {
        (self.f)(msg, state, &mut queue, &mut channel)
    }
    fn wants_owning(&self) -> bool {
        (self.owning)()
    }
}
impl<V: 'static + Send> SelfMadeHandler for FnH<V> {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<V>;
    fn queue_msgs(&self, state: &ClientState, queue: QueueEditGuard<'_>) {
        if let Some(f) = &self.on_add {
            f(state, queue)
        }
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = V> + Send>, Spec::Queue<V>) {
        spec.new_queue()
    }
}

/// Lets single-threaded state into closures that must be `Send`.
pub struct Loc<T>(T);
unsafe impl<T> Send for Loc<T> {}
impl<T> Loc<T> {
    pub fn new(t: T) -> Loc<T> {
        Loc(t)
    }
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
