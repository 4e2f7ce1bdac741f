use std::error::Error;
use std::fmt::{self, Debug, Display};

use serde_json::Value;
use single_use_seals::{ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};

use crate::{arr, num, Out};

fn mix(parts: &[u64]) -> u64 {
    let mut z = 5u64;
    for p in parts {
        z = (z ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 29;
    }
    z
}

macro_rules! strict {
    ($($x:item)*) => {$(
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = "CsvProbe")]
        #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
        $x
    )*}
}
strict! {
    struct Seal { id: u16 }
    struct Published { id: u32, mood: u8 }
    struct Client { id: u32 }
    struct Bare { id: u8 }
    struct Register { closed: u32, message: u64 }
    struct Nothing { unit: u8 }
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Fault(u32);
impl Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "fault-{}", self.0) }
}
impl Error for Fault {}
impl Display for Seal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<{}>", self.id) }
}
impl Display for Bare {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "bare-{}", self.id) }
}

impl SingleUseSeal for Seal {
    type Message = u16;
    type PubWitness = Published;
    type CliWitness = Client;
    fn is_included(&self, m: u16, w: &SealWitness<Self>) -> bool {
        match w.published.mood % 3 {
            0 => mix(&[1, self.id as u64, m as u64, w.published.id as u64, w.client.id as u64]) % 2 == 0,
            1 => mix(&[2, self.id as u64, m as u64, w.published.id as u64, w.client.id as u64]) % 8 != 0,
            _ => true,
        }
    }
}
impl ClientSideWitness for Client {
    type Seal = Seal;
    type Proof = u64;
    type Error = Fault;
    fn convolve_commit(&self, m: u16) -> Result<u64, Fault> {
        let x = mix(&[3, self.id as u64, m as u64]);
        if x % 3 == 0 { Err(Fault((x >> 40) as u32)) } else { Ok(x) }
    }
    fn merge(&mut self, other: Self) -> Result<(), impl Error> {
        if self.id == other.id { Ok(()) } else { Err(Fault(other.id)) }
    }
}
impl PublishedWitness<Seal> for Published {
    type PubId = u32;
    type Error = Fault;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, proof: u64) -> Result<(), Fault> {
        let x = mix(&[4, self.id as u64, proof]);
        if x % 2 == 0 { Err(Fault((x >> 40) as u32)) } else { Ok(()) }
    }
}

fn verdict<S: SingleUseSeal>(r: Result<(), SealError<S>>) -> String
where SealError<S>: Error {
    match r {
        Ok(()) => "closed".into(),
        Err(e) => format!("{e:?} / {e} / {:?}", e.source().map(|e| e.to_string())),
    }
}

pub fn seal(r: &[Value], out: &mut Out) {
    let w = SealWitness::<Seal>::new(
        Published { id: num(&r[0]) as u32, mood: num(&r[1]) as u8 },
        Client { id: num(&r[2]) as u32 },
    );
    let seals: Vec<Seal> = arr(&r[3]).iter().map(|x| Seal { id: num(x) as u16 }).collect();
    let m = num(&r[4]) as u16;
    out.push(verdict(w.verify_seals_closing(&seals, m)));
    out.push(verdict(w.verify_seals_closing(seals.clone(), m)));
    for s in &seals {
        out.push(verdict(w.verify_seal_closing(s, m)));
    }
}

impl SingleUseSeal for Bare {
    type Message = u64;
    type PubWitness = Register;
    // The absence of a witness has no binary form
    #[cfg(feature = "csv")]
    type CliWitness = Nothing;
    #[cfg(not(feature = "csv"))]
    type CliWitness = NoWitness<Bare>;
    fn is_included(&self, _: u64, w: &SealWitness<Self>) -> bool {
        self.id < 32 && w.published.closed >> self.id & 1 == 1
    }
}
impl PublishedWitness<Bare> for Register {
    type PubId = u32;
    type Error = Fault;
    fn pub_id(&self) -> u32 { self.closed }
    fn verify_commitment(&self, proof: u64) -> Result<(), Fault> {
        if proof == self.message { Ok(()) } else { Err(Fault(proof as u32)) }
    }
}
impl ClientSideWitness for Nothing {
    type Seal = Bare;
    type Proof = u64;
    type Error = std::convert::Infallible;
    fn convolve_commit(&self, m: u64) -> Result<u64, Self::Error> { NoWitness::<Bare>::default().convolve_commit(m) }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> {
        NoWitness::<Bare>::default().merge(NoWitness::default()).map_err(|e| Fault(e.to_string().len() as u32))
    }
}

pub fn bare(r: &[Value], out: &mut Out) {
    let published = Register { closed: num(&r[0]) as u32, message: num(&r[1]) };
    #[cfg(feature = "csv")]
    let client = Nothing { unit: 0 };
    #[cfg(not(feature = "csv"))]
    let client = NoWitness::<Bare>::default();
    let seals: Vec<Bare> = arr(&r[2]).iter().map(|x| Bare { id: num(x) as u8 }).collect();
    let m = num(&r[3]);
    out.push(format!("{:?}", client.convolve_commit(m)));
    let mut c = client.clone();
    let merged = c.merge(client.clone()).is_ok();
    out.push(format!("{merged} {}", c == client));
    let w = SealWitness::<Bare>::new(published, client);
    out.push(verdict(w.verify_seals_closing(&seals, m)));
    for s in &seals {
        out.push(verdict(w.verify_seal_closing(s, m)));
    }
}
