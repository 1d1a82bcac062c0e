//! Exchange stub: pool manager semantics (multi-hop exact-in / exact-out swaps and estimates).
//! Weighted pools use an independent port of the chain's power series, other kinds a constant
//! product.
use crate::util::*;
use cosmwasm_std::Uint512;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Asset {
    pub denom: String,
    #[serde(with = "crate::util::u128s")]
    pub bal: u128,
    #[serde(with = "crate::util::u128s")]
    pub weight: u128,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Pool {
    pub id: u64,
    pub kind: String, // weighted | stable | cl
    pub assets: Vec<Asset>,
    pub fee: Dec,
    #[serde(default)]
    pub halted: bool,
}

pub type R<T> = Result<T, String>;

/// product of two 18-decimal numbers
fn dmul(a: u128, b: u128) -> R<u128> {
    let (a, b) = if a >= b { (a, b) } else { (b, a) };
    // a = hi * 1 + lo, so that the parts fit
    let (hi, lo) = (a / ONE, a % ONE);
    let e = || "decimal overflow".to_string();
    hi.checked_mul(b).and_then(|h| h.checked_add(lo.checked_mul(b)? / ONE)).ok_or_else(e)
}

/// base^exp the way the exchange computes it (18 decimals)
pub fn pow(base: u128, exp: u128) -> R<u128> {
    if base == 0 || base >= 2 * ONE {
        return Err("pow base out of range".into());
    }
    if exp == ONE {
        return Ok(base);
    }
    let (mut k, frac) = (exp / ONE, exp % ONE);
    let mut ip = ONE;
    let mut b = base;
    if k > 0 {
        let mut tmp = ONE;
        while k > 1 {
            if k % 2 == 1 {
                tmp = dmul(tmp, b)?;
            }
            k /= 2;
            b = dmul(b, b)?;
        }
        ip = dmul(b, tmp)?;
    }
    if frac == 0 {
        return Ok(ip);
    }
    // binomial series of (1+x)^frac
    let prec = 10_000_000_000u128;
    let up = base >= ONE; // x >= 0
    let x = base.abs_diff(ONE);
    let mut term = ONE;
    let mut sum = ONE;
    let mut neg = false;
    let mut i = 1u128;
    while term >= prec {
        let k1 = (i - 1) * ONE;
        let cneg = frac < k1;
        let c = frac.abs_diff(k1);
        term = dmul(term, dmul(c, x)?)? / i;
        if term == 0 {
            break;
        }
        if !up {
            neg = !neg;
        }
        if cneg {
            neg = !neg;
        }
        if neg {
            sum = sum.checked_sub(term).ok_or("pow underflow")?;
        } else {
            sum += term;
        }
        i += 1;
        if i > 20_000 {
            return Err("pow did not converge".into());
        }
    }
    dmul(ip, sum)
}

impl Pool {
    pub fn has(&self, d: &str) -> bool {
        self.assets.iter().any(|a| a.denom == d)
    }
    fn idx(&self, d: &str) -> R<usize> {
        self.assets
            .iter()
            .position(|a| a.denom == d)
            .ok_or_else(|| format!("pool {} has no {d}", self.id))
    }
    pub fn swap_in(&mut self, din: &str, amt: u128, dout: &str) -> R<u128> {
        if self.halted {
            return Err("pool halted".into());
        }
        if amt == 0 {
            return Err("zero token in".into());
        }
        if din == dout {
            return Err("cannot trade the same denomination in and out".into());
        }
        let (i, o) = (self.idx(din)?, self.idx(dout)?);
        let (bi, bo) = (self.assets[i].bal, self.assets[o].bal);
        let inf = muldiv(amt, ONE - self.fee.0, ONE);
        let out = if self.kind == "weighted" {
            let y = muldiv(bi, ONE, bi + inf);
            let w = muldiv(self.assets[i].weight, ONE, self.assets[o].weight);
            let p = pow(y, w)?;
            if p > ONE {
                return Err("token amount must be positive".into());
            }
            muldiv(bo, ONE - p, ONE)
        } else {
            muldiv(bo, inf, bi + inf)
        };
        if out == 0 {
            return Err("token amount must be positive".into());
        }
        if out >= bo {
            return Err("pool drained".into());
        }
        self.assets[i].bal += amt;
        self.assets[o].bal -= out;
        Ok(out)
    }
    pub fn swap_out(&mut self, din: &str, dout: &str, out: u128) -> R<u128> {
        if self.halted {
            return Err("pool halted".into());
        }
        if out == 0 {
            return Err("zero token out".into());
        }
        if din == dout {
            return Err("cannot trade the same denomination in and out".into());
        }
        let (i, o) = (self.idx(din)?, self.idx(dout)?);
        let (bi, bo) = (self.assets[i].bal, self.assets[o].bal);
        if out >= bo {
            return Err("can't get more tokens out than there are tokens in the pool".into());
        }
        let amt = if self.kind == "weighted" {
            // balance too far below: out of the power series' range
            if bo - out <= bo / 2 {
                return Err("pow base out of range".into());
            }
            let y = muldiv(bo, ONE, bo - out);
            let w = muldiv(self.assets[o].weight, ONE, self.assets[i].weight);
            let p = pow(y, w)?;
            if p < ONE {
                return Err("token amount must be positive".into());
            }
            // bi * (p - 1) / (1 - fee) with 18 decimals, then rounded up to an integer
            let n = Uint512::from(bi) * Uint512::from(p - ONE) * Uint512::from(ONE) / Uint512::from(ONE - self.fee.0);
            let (q, one) = (n / Uint512::from(ONE), Uint512::from(ONE));
            let q1 = to128(q);
            if q * one == n { q1 } else { q1 + 1 }
        } else {
            let inf = muldiv_ceil(bi, out, bo - out);
            muldiv_ceil(inf, ONE, ONE - self.fee.0)
        };
        if amt == 0 {
            return Err("token amount must be positive".into());
        }
        self.assets[i].bal += amt;
        self.assets[o].bal -= out;
        Ok(amt)
    }
    /// Answer of the pool query, in the shape the node's JSON has.
    pub fn json(&self) -> String {
        let addr = format!("osmo1pool{}", self.id);
        match self.kind.as_str() {
            "weighted" => {
                let tw: u128 = self.assets.iter().map(|a| a.weight).sum();
                let assets: Vec<String> = self
                    .assets
                    .iter()
                    .map(|a| {
                        format!(
                            r#"{{"token":{{"denom":"{}","amount":"{}"}},"weight":"{}"}}"#,
                            a.denom, a.bal, a.weight
                        )
                    })
                    .collect();
                format!(
                    r#"{{"pool":{{"@type":"/osmosis.gamm.v1beta1.Pool","address":"{addr}","id":"{}","pool_params":{{"swap_fee":"{}","exit_fee":"0.000000000000000000","smooth_weight_change_params":null}},"future_pool_governor":"24h","total_shares":{{"denom":"gamm/pool/{}","amount":"100000000000000000000"}},"pool_assets":[{}],"total_weight":"{tw}"}}}}"#,
                    self.id,
                    self.fee,
                    self.id,
                    assets.join(",")
                )
            }
            "stable" => {
                let liq: Vec<String> = self
                    .assets
                    .iter()
                    .map(|a| format!(r#"{{"denom":"{}","amount":"{}"}}"#, a.denom, a.bal))
                    .collect();
                let sf: Vec<&str> = self.assets.iter().map(|_| "1").collect();
                format!(
                    r#"{{"pool":{{"@type":"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool","address":"{addr}","id":"{}","pool_params":{{"swap_fee":"{}","exit_fee":"0.000000000000000000"}},"future_pool_governor":"168h","total_shares":{{"denom":"gamm/pool/{}","amount":"100000000000000000000"}},"pool_liquidity":[{}],"scaling_factors":[{}],"scaling_factor_controller":""}}}}"#,
                    self.id,
                    self.fee,
                    self.id,
                    liq.join(","),
                    sf.join(",")
                )
            }
            _ => format!(
                r#"{{"pool":{{"@type":"/osmosis.concentratedliquidity.v1beta1.Pool","address":"{addr}","incentives_address":"{addr}i","spread_rewards_address":"{addr}s","id":"{}","current_tick_liquidity":"1000000.5","token0":"{}","token1":"{}","current_sqrt_price":"1.0","current_tick":"0","tick_spacing":"100","exponent_at_price_one":"-6","spread_factor":"{}","last_liquidity_update":"2023-01-01T00:00:00Z"}}}}"#,
                self.id, self.assets[0].denom, self.assets[1].denom, self.fee
            ),
        }
    }
}

pub type Pools = std::collections::BTreeMap<u64, Pool>;

/// routes: (pool, token_out_denom), in hop order
pub fn route_in(ps: &mut Pools, din: &str, amt: u128, routes: &[(u64, String)]) -> R<(String, u128)> {
    if routes.is_empty() {
        return Err("provided empty routes".into());
    }
    let mut d = din.to_string();
    let mut a = amt;
    for (id, out) in routes {
        let p = ps.get_mut(id).ok_or_else(|| format!("pool {id} not found"))?;
        a = p.swap_in(&d, a, out)?;
        d = out.clone();
    }
    Ok((d, a))
}

/// routes: (pool, token_in_denom), in hop order; returns (denom in, amount in)
pub fn route_out(ps: &mut Pools, routes: &[(u64, String)], dout: &str, out: u128) -> R<(String, u128)> {
    if routes.is_empty() {
        return Err("provided empty routes".into());
    }
    let mut d = dout.to_string();
    let mut a = out;
    for (id, din) in routes.iter().rev() {
        let p = ps.get_mut(id).ok_or_else(|| format!("pool {id} not found"))?;
        a = p.swap_out(din, &d, a)?;
        d = din.clone();
    }
    Ok((d, a))
}
