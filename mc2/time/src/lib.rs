//! the part of `time` 0.3 the repository uses: RFC 2822 text of a unix timestamp (proleptic Gregorian, UTC)
pub mod error {
    #[derive(Debug)]
    pub struct ComponentRange;
    #[derive(Debug)]
    pub struct Format;
}
pub mod format_description {
    pub mod well_known {
        pub struct Rfc2822;
    }
}
pub struct OffsetDateTime {
    secs: i128,
}
impl OffsetDateTime {
    pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, error::ComponentRange> {
        let secs = n.div_euclid(1_000_000_000);
        // year -9999 ..= 9999
        if !(-377705116800..=253402300799).contains(&secs) {
            return Err(error::ComponentRange);
        }
        Ok(OffsetDateTime { secs })
    }
    pub fn format(&self, _: &format_description::well_known::Rfc2822) -> Result<String, error::Format> {
        let days = self.secs.div_euclid(86400);
        let s = self.secs.rem_euclid(86400);
        let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
        let z = days + 719468;
        let era = z.div_euclid(146097);
        let doe = z.rem_euclid(146097);
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = doy - (153 * mp + 2) / 5 + 1;
        let m = if mp < 10 { mp + 3 } else { mp - 9 };
        let y = yoe + era * 400 + (m <= 2) as i128;
        if y < 1900 {
            return Err(error::Format);
        }
        let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
        Ok(format!("{wd}, {d:02} {mn} {y:04} {:02}:{:02}:{:02} +0000", s / 3600, s / 60 % 60, s % 60))
    }
}
