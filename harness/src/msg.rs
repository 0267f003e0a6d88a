//! The messages of the workloads.
use crate::util::Rng;
use ipmb::MessageBox;
use serde::{Deserialize, Serialize};
use type_uuid::{Bytes, TypeUuid};

/// The standard message: (sid, seq) is unique, the body follows from both.
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9d001"]
pub struct V {
    pub sid: u32,
    pub seq: u32,
    pub kind: u8,
    #[serde(with = "serde_bytes")]
    pub body: Vec<u8>,
}

/// Another type with the very same encoding.
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9d002"]
pub struct W {
    pub sid: u32,
    pub seq: u32,
    pub kind: u8,
    #[serde(with = "serde_bytes")]
    pub body: Vec<u8>,
}

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9d003"]
pub struct Stop {
    pub ep: u32,
}

pub fn body(sid: u32, seq: u32, len: usize) -> Vec<u8> {
    Rng::of(&[sid as u64, seq as u64, 77]).fill(len)
}

impl V {
    pub fn new(sid: u32, seq: u32, kind: u8, len: usize) -> V {
        V {
            sid,
            seq,
            kind,
            body: body(sid, seq, len),
        }
    }
    pub fn ok(&self) -> bool {
        self.body == body(self.sid, self.seq, self.body.len())
    }
}

#[derive(ipmb::MessageBox)]
pub enum In {
    V(V),
    Stop(Stop),
    W(W),
}

/// Sends any message: type and bytes chosen by the workload.
pub struct SBox {
    pub uuid: Bytes,
    pub data: Vec<u8>,
}

impl SBox {
    pub fn of<T: MessageBox>(t: &T) -> SBox {
        SBox {
            uuid: t.uuid(),
            data: t.encode().expect("encode"),
        }
    }
}

impl MessageBox for SBox {
    fn decode(uuid: Bytes, data: &[u8]) -> Result<Self, ipmb::Error> {
        Ok(SBox {
            uuid,
            data: data.to_vec(),
        })
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        Ok(self.data.clone())
    }
    fn uuid(&self) -> Bytes {
        self.uuid
    }
}
