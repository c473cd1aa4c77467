#[cfg(vh = "b01")]
pub mod b01;
#[cfg(vh = "b01")]
use b01::HARNESSES;
#[cfg(vh = "b02")]
pub mod b02;
#[cfg(vh = "b02")]
use b02::HARNESSES;
#[cfg(vh = "b03")]
pub mod b03;
#[cfg(vh = "b03")]
use b03::HARNESSES;
#[cfg(vh = "c02")]
pub mod c02;
#[cfg(vh = "c02")]
use c02::HARNESSES;
#[cfg(vh = "c03")]
pub mod c03;
#[cfg(vh = "c03")]
use c03::HARNESSES;
#[cfg(vh = "c04")]
pub mod c04;
#[cfg(vh = "c04")]
use c04::HARNESSES;
#[cfg(vh = "e01")]
pub mod e01;
#[cfg(vh = "e01")]
use e01::HARNESSES;
#[cfg(vh = "e02")]
pub mod e02;
#[cfg(vh = "e02")]
use e02::HARNESSES;
#[cfg(vh = "e04")]
pub mod e04;
#[cfg(vh = "e04")]
use e04::HARNESSES;
#[cfg(vh = "k01")]
pub mod k01;
#[cfg(vh = "k01")]
use k01::HARNESSES;
#[cfg(vh = "k02")]
pub mod k02;
#[cfg(vh = "k02")]
use k02::HARNESSES;
#[cfg(vh = "k03")]
pub mod k03;
#[cfg(vh = "k03")]
use k03::HARNESSES;
#[cfg(vh = "k04")]
pub mod k04;
#[cfg(vh = "k04")]
use k04::HARNESSES;
#[cfg(vh = "k05")]
pub mod k05;
#[cfg(vh = "k05")]
use k05::HARNESSES;
#[cfg(vh = "k06")]
pub mod k06;
#[cfg(vh = "k06")]
use k06::HARNESSES;
#[cfg(vh = "k07")]
pub mod k07;
#[cfg(vh = "k07")]
use k07::HARNESSES;
#[cfg(vh = "k08")]
pub mod k08;
#[cfg(vh = "k08")]
use k08::HARNESSES;
#[cfg(vh = "k09")]
pub mod k09;
#[cfg(vh = "k09")]
use k09::HARNESSES;
#[cfg(vh = "k10")]
pub mod k10;
#[cfg(vh = "k10")]
use k10::HARNESSES;
#[cfg(vh = "k11")]
pub mod k11;
#[cfg(vh = "k11")]
use k11::HARNESSES;
#[cfg(vh = "k12")]
pub mod k12;
#[cfg(vh = "k12")]
use k12::HARNESSES;
#[cfg(vh = "k13")]
pub mod k13;
#[cfg(vh = "k13")]
use k13::HARNESSES;
#[cfg(vh = "k14")]
pub mod k14;
#[cfg(vh = "k14")]
use k14::HARNESSES;
#[cfg(vh = "k16")]
pub mod k16;
#[cfg(vh = "k16")]
use k16::HARNESSES;
#[cfg(vh = "k17")]
pub mod k17;
#[cfg(vh = "k17")]
use k17::HARNESSES;
#[cfg(vh = "n03")]
pub mod n03;
#[cfg(vh = "n03")]
use n03::HARNESSES;
#[cfg(vh = "p01")]
pub mod p01;
#[cfg(vh = "p01")]
use p01::HARNESSES;
#[cfg(vh = "s01")]
pub mod s01;
#[cfg(vh = "s01")]
use s01::HARNESSES;
#[cfg(vh = "s02")]
pub mod s02;
#[cfg(vh = "s02")]
use s02::HARNESSES;
#[cfg(vh = "s03")]
pub mod s03;
#[cfg(vh = "s03")]
use s03::HARNESSES;
#[cfg(vh = "s04")]
pub mod s04;
#[cfg(vh = "s04")]
use s04::HARNESSES;
