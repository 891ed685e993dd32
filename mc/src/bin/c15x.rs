//! C15, thorough: bit decompositions of every element of many prime fields.
use mc::report::Ctx;
use mc::toy::*;
fn main() {
    let cx = Ctx::new("C15");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    mc::bit_primes!(&cx, th; 23 41 43 47 53 59 71 73 79 83 89 101 103 107 109 113 137 139 149 151 157 163 167 173 179 181 191 197 199 211 223 227 229 233 239 241 263 269 271 277 281 283 293 307 311 313 317 331 337 347 349 353 359 367 373 379 383 389 397 401 409 419 421 431 433 439 443 449 457 461 463 467 479 487 491 499);
    mc::bit_primes!(&cx, th; 503 2039 2053 4093 7681 8209 16381 16411 40961 64513 65521 65537);
    cx.finish();
}
