//! Sequential references for everything between sums of samples and image bytes.
use crate::render::Img;
use crate::spec::*;

/// Bytes a mean colour may be shown as (two if it is on the border of both).
pub fn bytes(v: f64) -> (u8, u8) {
    let g = v.max(0.0).sqrt().clamp(0.0, 0.999) * 256.0;
    let eps = 1e-6 + g * 1e-9;
    ((g - eps).max(0.0) as u8, (g + eps).min(255.9) as u8)
}

/// Compares an image with the mean colours it should show.
pub fn compare(img: &Img, w: usize, h: usize, mean: &[V]) -> Result<(), String> {
    if img.w as usize != w || img.h as usize != h {
        return Err(format!("image is {}x{}, asked for {w}x{h}", img.w, img.h));
    }
    for y in 0..h {
        for x in 0..w {
            let p = img.at(x, y);
            let m = mean[y * w + x];
            for c in 0..3 {
                let (lo, hi) = bytes(m[c]);
                if p[c] < lo || p[c] > hi {
                    return Err(format!("pixel ({x},{y}) channel {c} is {}, should be {lo} (mean {})", p[c], m[c]));
                }
            }
        }
    }
    Ok(())
}

fn len(v: V) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

/// Whether the colour meets the threshold in a way that no rounding can change: only one
/// channel, and all numbers short.
fn met(p: V, thr: f64) -> bool {
    p.iter().filter(|x| **x != 0.0).count() == 1 && p.contains(&thr) && (thr * 1024.0).fract() == 0.0
}

/// The bloom filter on mean colours; None when a parameter is too close to a border to tell.
pub fn bloom(px: &[V], w: usize, h: usize, frac: f64, threshold: Option<f64>, max: Option<f64>) -> Option<Vec<V>> {
    let thr = threshold.unwrap_or(3f64.sqrt());
    let max = max.unwrap_or(f64::INFINITY);
    let rf = frac * w as f64;
    let radius = rf.floor() as i64;
    if rf > 0.5 && (rf - rf.round()).abs() < 1e-9 {
        return None;
    }
    let k = (2 * radius + 1) as usize;
    let sd = k as f64 / 5.0;
    let mut wt: Vec<f64> = (0..k).map(|i| (-0.5 * ((i as f64 - radius as f64) / sd).powi(2)).exp()).collect();
    let sum: f64 = wt.iter().sum();
    wt.iter_mut().for_each(|x| *x /= sum);
    let mut bright = vec![[0.0; 3]; w * h];
    for (b, p) in bright.iter_mut().zip(px) {
        let l = len(*p);
        if (l - thr).abs() < 1e-9 * (1.0 + thr) && l > 0.0 && !met(*p, thr) {
            return None;
        }
        if l >= thr {
            let f = if l > max { max / l } else { 1.0 };
            *b = [p[0] * f, p[1] * f, p[2] * f];
        }
    }
    let mut out = px.to_vec();
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let mut c = [0.0; 3];
            for dy in -radius..=radius {
                for dx in -radius..=radius {
                    let sx = (x + dx).clamp(0, w as i64 - 1) as usize;
                    let sy = (y + dy).clamp(0, h as i64 - 1) as usize;
                    let f = wt[(dx + radius) as usize] * wt[(dy + radius) as usize];
                    let b = bright[sy * w + sx];
                    for i in 0..3 {
                        c[i] += b[i] * f;
                    }
                }
            }
            for i in 0..3 {
                out[y as usize * w + x as usize][i] += c[i];
            }
        }
    }
    Some(out)
}

/// A whole chain of post processors on mean colours.
pub fn chain(px: &[V], w: usize, h: usize, posts: &[Post]) -> Option<Vec<V>> {
    let mut cur = px.to_vec();
    for p in posts {
        if let Post::Bloom { frac, threshold, max } = p {
            cur = bloom(&cur, w, h, *frac, *threshold, *max)?;
        }
    }
    Some(cur)
}
