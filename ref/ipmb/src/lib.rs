use bus_controller::BusController;
pub use errors::{Error, JoinError, RecvError, SendError};
pub use ipmb_derive::MessageBox;
pub use label::{Label, LabelOp};
pub use memory_registry::MemoryRegistry;
pub use message::{BytesMessage, Message, MessageBox};
use once_cell::sync::Lazy;
pub use options::Options;
use platform::{look_up, register, EncodedMessage, IoHub, IoMultiplexing, Remote};
pub use platform::{MemoryRegion, Object};
use serde::{Deserialize, Serialize};
use std::{
    fmt::{Display, Formatter},
    marker::PhantomData,
    sync::{
        atomic::{AtomicBool, Ordering},
        mpsc,
        mpsc::{Receiver, RecvTimeoutError, Sender},
        Arc, Mutex, RwLock, TryLockError,
    },
    thread,
    time::{Duration, Instant},
};
use type_uuid::Bytes;
use util::EndpointID;

mod bus_controller;
mod errors;
mod label;
mod memory_registry;
mod message;
mod options;
pub mod platform;
mod util;

/// Describe how a messages is routed.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Selector {
    pub label_op: LabelOp,
    pub mode: SelectorMode,
    uuid: Bytes,
    memory_region_count: u16,
    /// The time to live when a message cannot be routed to any endpoint.
    pub ttl: Duration,
}

impl Selector {
    pub fn unicast(label_op: impl Into<LabelOp>) -> Self {
        Self {
            label_op: label_op.into(),
            mode: SelectorMode::Unicast,
            uuid: [0; 16],
            memory_region_count: 0,
            ttl: Duration::ZERO,
        }
    }

    pub fn multicast(label_op: impl Into<LabelOp>) -> Self {
        Self {
            label_op: label_op.into(),
            mode: SelectorMode::Multicast,
            uuid: [0; 16],
            memory_region_count: 0,
            ttl: Duration::ZERO,
        }
    }
}

#[derive(Debug, Copy, Clone, Serialize, Deserialize, Eq, PartialEq)]
pub enum SelectorMode {
    /// The message can only be consumed by one endpoint.
    Unicast,
    /// The message can be consumed by multiple endpoints.
    Multicast,
}

// A length prefix is untrusted, it must not make the decoder allocate without bound
const DECODE_LIMIT: usize = 1 << 30;

pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
    let (d, _): (T, _) = bincode::serde::borrow_decode_from_slice(
        data,
        bincode::config::standard().with_limit::<DECODE_LIMIT>(),
    )
    .map_err(Error::Decode)?;
    Ok(d)
}

pub fn encode<T: Serialize>(t: T) -> Result<Vec<u8>, Error> {
    let data = bincode::serde::encode_to_vec(t, bincode::config::standard())?;
    Ok(data)
}

pub fn join<'de, T: MessageBox, R: MessageBox>(
    options: Options,
    timeout: Option<Duration>,
) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
    let rule = Arc::new(SharedRule {
        rule: RwLock::new(Arc::new(Rule::join(
            options,
            0,
            Arc::new(IoMultiplexing::new()),
            timeout,
        )?)),
        rejoining: Mutex::new(()),
    });

    Ok((
        EndpointSender {
            rule: rule.clone(),
            _marker: PhantomData,
        },
        EndpointReceiver {
            rule,
            _maker: PhantomData,
        },
    ))
}

/// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
pub struct EndpointSender<T> {
    rule: Arc<SharedRule>,
    _marker: PhantomData<T>,
}

impl<T> Clone for EndpointSender<T> {
    fn clone(&self) -> Self {
        Self {
            rule: self.rule.clone(),
            _marker: PhantomData,
        }
    }
}

impl<T: MessageBox> EndpointSender<T> {
    pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
        msg.selector.memory_region_count = msg.memory_regions.len() as _;
        let mut msg = msg.into_encoded();

        loop {
            let rule = self.rule.get();
            match &*rule {
                Rule::Client {
                    endpoint_id: _,
                    options: _,
                    remote,
                    io_hub: _,
                    reader_closed: _,
                    im: _,
                    epoch,
                } => match msg.send(remote) {
                    Err(Error::Disconnect) => self.rule.rejoin(*epoch, None)?,
                    Err(_) => unreachable!(),
                    Ok(_) => break Ok(()),
                },
                Rule::Server {
                    endpoint_id: _,
                    bus_sender,
                    receiver: _,
                    im,
                } => {
                    bus_sender.lock().unwrap().send(msg).unwrap();
                    im.wake();
                    break Ok(());
                }
            }
        }
    }
}

/// The receiving half of endpoint, messages sent to the endpoint can be retrieved using [`recv`](EndpointReceiver::recv), dropping receiver will close underly receving kernel buffer.
// Don't impl Clone
pub struct EndpointReceiver<R> {
    rule: Arc<SharedRule>,
    _maker: PhantomData<R>,
}

impl<'de, R: MessageBox> EndpointReceiver<R> {
    pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
        // A timeout too long to be represented never expires
        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));

        loop {
            // Messages of other types don't extend the timeout
            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));

            let rule = self.rule.get();
            match &*rule {
                Rule::Client {
                    endpoint_id: _,
                    options,
                    remote,
                    io_hub,
                    reader_closed,
                    im: _,
                    epoch,
                } => {
                    let mut io_hub_guard = io_hub.lock().unwrap();

                    if !reader_closed.load(Ordering::SeqCst) && io_hub_guard.is_none() {
                        drop(io_hub_guard);
                        self.rule.rejoin(*epoch, end)?;
                        continue;
                    }

                    let io_hub_mut = io_hub_guard.as_mut().expect("reader closed");

                    match io_hub_mut.recv(timeout, Some(remote)) {
                        Ok(encoded_msg) => {
                            if encoded_msg.selector.label_op.validate(&options.label) {
                                match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
                                {
                                    Ok(payload) => {
                                        let mut msg = Message::new(encoded_msg.selector, payload);
                                        msg.objects = encoded_msg.objects;
                                        msg.memory_regions = encoded_msg.memory_regions;
                                        break Ok(msg);
                                    }
                                    Err(Error::TypeUuidNotFound) => {
                                        continue;
                                    }
                                    Err(Error::Decode(err)) => {
                                        break Err(RecvError::Decode(err));
                                    }
                                    Err(_) => unreachable!(),
                                }
                            } else {
                                log::warn!(
                                    "Unexpected message label_op: {:?}",
                                    encoded_msg.selector.label_op
                                );
                                continue;
                            }
                        }
                        Err(Error::Disconnect) => {
                            drop(io_hub_guard);
                            self.rule.rejoin(*epoch, end)?;
                        }
                        Err(Error::Timeout) => {
                            break Err(RecvError::Timeout);
                        }
                        Err(_) => unreachable!(),
                    }
                }
                Rule::Server {
                    endpoint_id: _,
                    bus_sender: _,
                    receiver,
                    im: _,
                } => {
                    let receiver = receiver.lock().unwrap();
                    let receiver = receiver.as_ref().expect("reader closed");
                    break match timeout {
                        Some(timeout) => match receiver.recv_timeout(timeout) {
                            Ok(encoded_msg) => {
                                match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
                                {
                                    Ok(payload) => {
                                        let mut msg = Message::new(encoded_msg.selector, payload);
                                        msg.objects = encoded_msg.objects;
                                        msg.memory_regions = encoded_msg.memory_regions;
                                        Ok(msg)
                                    }
                                    Err(Error::TypeUuidNotFound) => {
                                        continue;
                                    }
                                    Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
                                    Err(_) => unreachable!(),
                                }
                            }
                            Err(RecvTimeoutError::Timeout) => Err(RecvError::Timeout),
                            Err(_) => unreachable!(),
                        },
                        None => {
                            let encoded_msg = receiver.recv().unwrap();
                            match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data) {
                                Ok(payload) => {
                                    let mut msg = Message::new(encoded_msg.selector, payload);
                                    msg.objects = encoded_msg.objects;
                                    msg.memory_regions = encoded_msg.memory_regions;
                                    Ok(msg)
                                }
                                Err(Error::TypeUuidNotFound) => {
                                    continue;
                                }
                                Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
                                Err(_) => unreachable!(),
                            }
                        }
                    };
                }
            }
        }
    }
}

impl<R> Drop for EndpointReceiver<R> {
    fn drop(&mut self) {
        self.rule.reader_close();
    }
}

/// What the handles of one endpoint share.
struct SharedRule {
    rule: RwLock<Arc<Rule>>,
    rejoining: Mutex<()>,
}

impl SharedRule {
    // No lock is held while sending, receiving or joining, otherwise it would block the others
    fn get(&self) -> Arc<Rule> {
        self.rule.read().unwrap().clone()
    }

    /// Join again after the rule of `epoch` was disconnected, unless somebody else did.
    fn rejoin(&self, epoch: u32, end: Option<Instant>) -> Result<(), JoinError> {
        let _rejoining = match end {
            None => self.rejoining.lock().unwrap(),
            Some(end) => loop {
                match self.rejoining.try_lock() {
                    Ok(guard) => break guard,
                    Err(TryLockError::WouldBlock) => {
                        if Instant::now() >= end {
                            return Err(JoinError::Timeout);
                        }
                        thread::sleep(Duration::from_millis(1));
                    }
                    Err(err) => panic!("{}", err),
                }
            },
        };

        let old = self.get();
        if let Rule::Client {
            endpoint_id: _,
            options,
            remote: _,
            io_hub,
            reader_closed,
            im,
            epoch: epoch1,
        } = &*old
        {
            if epoch == *epoch1 {
                // Close reader
                drop(io_hub.lock().unwrap().take());

                let new = Rule::join(
                    options.clone(),
                    epoch.overflowing_add(1).0,
                    im.clone(),
                    end.map(|end| end.saturating_duration_since(Instant::now())),
                )?;

                let mut rule = self.rule.write().unwrap();
                if reader_closed.load(Ordering::SeqCst) {
                    new.reader_close();
                }
                *rule = Arc::new(new);
            }
        }
        Ok(())
    }

    fn reader_close(&self) {
        let rule = self.rule.read().unwrap();
        rule.reader_close();
    }
}

enum Rule {
    Client {
        #[allow(dead_code)]
        endpoint_id: EndpointID,
        options: Options,
        remote: Remote,
        io_hub: Mutex<Option<IoHub>>,
        reader_closed: AtomicBool,
        im: Arc<IoMultiplexing>,
        epoch: u32,
    },
    Server {
        #[allow(dead_code)]
        endpoint_id: EndpointID,
        bus_sender: Mutex<Sender<EncodedMessage>>,
        receiver: Mutex<Option<Receiver<EncodedMessage>>>,
        im: Arc<IoMultiplexing>,
    },
}

impl Rule {
    fn join(
        options: Options,
        epoch: u32,
        im: Arc<IoMultiplexing>,
        timeout: Option<Duration>,
    ) -> Result<Self, JoinError> {
        // A timeout too long to be represented never expires
        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));

        macro_rules! wait {
            () => {
                let mut wait = Duration::from_secs(2);
                if let Some(end) = end {
                    let remain = end.saturating_duration_since(Instant::now());
                    if remain.is_zero() {
                        return Err(JoinError::Timeout);
                    }
                    wait = wait.min(remain);
                }
                thread::sleep(wait);
            };
        }

        let mut timeout_count = 0;
        // When the service is in the process of registration, other endpoints may return PermissionDenied
        let mut permission_denied_count = 0;

        let rule = loop {
            let r = look_up(
                &options.identifier,
                options.label.clone(),
                options.token.clone(),
                im.clone(),
            );

            match r {
                Ok((io_hub, remote, endpoint_id)) => {
                    let rule = Rule::Client {
                        endpoint_id,
                        options,
                        remote,
                        io_hub: Mutex::new(Some(io_hub)),
                        reader_closed: AtomicBool::new(false),
                        im,
                        epoch,
                    };
                    break rule;
                }
                Err(Error::IdentifierNotInUse) => {
                    if !options.controller_affinity {
                        log::error!("lookup: controller not found");
                        wait!();
                        continue;
                    }

                    let r = register(&options.identifier, im.clone());

                    match r {
                        Ok((io_hub, bus_sender, endpoint_id)) => {
                            let (sender, receiver) = mpsc::channel::<EncodedMessage>();

                            let im = io_hub.io_multiplexing();

                            let bus_controller = BusController::new(
                                endpoint_id,
                                options.label,
                                options.token,
                                sender,
                                io_hub,
                            );
                            bus_controller.run();

                            let rule = Rule::Server {
                                endpoint_id,
                                bus_sender: Mutex::new(bus_sender),
                                receiver: Mutex::new(Some(receiver)),
                                im,
                            };
                            break rule;
                        }
                        Err(Error::IdentifierInUse) => {}
                        Err(Error::PermissionDenied) => {
                            permission_denied_count += 1;
                            if permission_denied_count > 5 {
                                return Err(JoinError::PermissionDenied);
                            }
                            wait!();
                        }
                        Err(err) => {
                            log::error!("register: {:?}", err);
                            wait!();
                        }
                    }
                }
                Err(Error::VersionMismatch(v, _)) => {
                    return Err(JoinError::VersionMismatch(v));
                }
                Err(Error::TokenMismatch) => {
                    return Err(JoinError::TokenMismatch);
                }
                Err(Error::PermissionDenied) => {
                    permission_denied_count += 1;
                    if permission_denied_count > 5 {
                        return Err(JoinError::PermissionDenied);
                    }
                    wait!();
                }
                Err(Error::Timeout) => {
                    timeout_count += 1;

                    if timeout_count > 5 {
                        return Err(JoinError::VersionMismatch(Version((0, 0, 0))));
                    }

                    wait!();
                }
                Err(err) => {
                    log::error!("look_up: {:?}", err);
                    wait!();
                }
            }
        };

        Ok(rule)
    }
}

impl Rule {
    fn reader_close(&self) {
        match self {
            Rule::Client {
                io_hub,
                reader_closed,
                ..
            } => {
                reader_closed.store(true, Ordering::SeqCst);
                let _ = io_hub.lock().unwrap().take();
            }
            Rule::Server { receiver, .. } => {
                let _ = receiver.lock().unwrap().take();
            }
        }
    }
}

// Serialize bug with multiple field
#[derive(Debug, Copy, Clone, Serialize, Deserialize, Eq, PartialEq)]
pub struct Version((u8, u8, u8));

impl Version {
    fn compatible(&self, rhs: Self) -> bool {
        if self.major() == 0 && rhs.major() == 0 {
            self.minor() == rhs.minor()
        } else {
            self.major() == rhs.major()
        }
    }

    pub fn major(&self) -> u8 {
        self.0 .0
    }

    pub fn minor(&self) -> u8 {
        self.0 .1
    }

    pub fn patch(&self) -> u8 {
        self.0 .2
    }
}

impl Display for Version {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}.{}.{}", self.0 .0, self.0 .1, self.0 .2)
    }
}

static VERSION: Lazy<Version> = Lazy::new(|| {
    let v_major = env!("CARGO_PKG_VERSION_MAJOR");
    let v_minor = env!("CARGO_PKG_VERSION_MINOR");
    let v_patch = env!("CARGO_PKG_VERSION_PATCH");
    Version((
        v_major.parse().unwrap(),
        v_minor.parse().unwrap(),
        v_patch.parse().unwrap(),
    ))
});
static VERSION_PRE: Lazy<&'static str> = Lazy::new(|| env!("CARGO_PKG_VERSION_PRE"));

pub fn version() -> Version {
    *VERSION
}

pub fn version_pre() -> String {
    VERSION_PRE.to_owned()
}
