//! Stand-in for the Open Image DeNoise bindings: records what it is given and
//! answers with a known function of it, or with the failure it was told to.
use std::sync::Mutex;

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub width: usize,
    pub height: usize,
    pub color: Vec<f32>,
    pub albedo: Option<Vec<f32>>,
    pub normal: Option<Vec<f32>>,
    pub srgb: bool,
    pub hdr: bool,
    pub clean_aux: bool,
}

/// Every call so far.
pub static CALLS: Mutex<Vec<Call>> = Mutex::new(Vec::new());
/// 1-based calls whose `filter` fails, and calls after which the device has an error.
pub static FAIL_FILTER: Mutex<Vec<usize>> = Mutex::new(Vec::new());
pub static FAIL_DEVICE: Mutex<Vec<usize>> = Mutex::new(Vec::new());

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FilterError {
    InvalidImageDimensions,
    Unknown,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    Unknown,
}

#[derive(Default)]
pub struct Device(());

impl Device {
    pub fn new() -> Self {
        Device(())
    }
    pub fn get_error(&self) -> Result<(), (Error, String)> {
        let n = CALLS.lock().unwrap().len();
        if FAIL_DEVICE.lock().unwrap().contains(&n) {
            return Err((Error::Unknown, "simulated device error".into()));
        }
        Ok(())
    }
}

pub struct RayTracing<'a> {
    _d: &'a Device,
    c: Call,
}

impl<'a> RayTracing<'a> {
    pub fn new(d: &'a Device) -> Self {
        RayTracing { _d: d, c: Call::default() }
    }
    pub fn image_dimensions(&mut self, w: usize, h: usize) -> &mut Self {
        self.c.width = w;
        self.c.height = h;
        self
    }
    pub fn albedo_normal(&mut self, a: &[f32], n: &[f32]) -> &mut Self {
        self.c.albedo = Some(a.to_vec());
        self.c.normal = Some(n.to_vec());
        self
    }
    pub fn albedo(&mut self, a: &[f32]) -> &mut Self {
        self.c.albedo = Some(a.to_vec());
        self
    }
    pub fn srgb(&mut self, v: bool) -> &mut Self {
        self.c.srgb = v;
        self
    }
    pub fn hdr(&mut self, v: bool) -> &mut Self {
        self.c.hdr = v;
        self
    }
    pub fn clean_aux(&mut self, v: bool) -> &mut Self {
        self.c.clean_aux = v;
        self
    }
    /// Output is 1 - color/2, so that what was denoised can be read off the image.
    pub fn filter(&self, color: &[f32], output: &mut [f32]) -> Result<(), FilterError> {
        let mut c = self.c.clone();
        c.color = color.to_vec();
        let n = {
            let mut v = CALLS.lock().unwrap();
            v.push(c);
            v.len()
        };
        if FAIL_FILTER.lock().unwrap().contains(&n) {
            return Err(FilterError::Unknown);
        }
        let want = self.c.width * self.c.height * 3;
        if color.len() != want || output.len() != want {
            return Err(FilterError::InvalidImageDimensions);
        }
        for b in [&self.c.albedo, &self.c.normal].into_iter().flatten() {
            if b.len() != want {
                return Err(FilterError::InvalidImageDimensions);
            }
        }
        for (o, i) in output.iter_mut().zip(color) {
            *o = 1.0 - *i * 0.5;
        }
        Ok(())
    }
}
