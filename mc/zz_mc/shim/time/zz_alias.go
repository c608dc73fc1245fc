// Code generated by aliasgen. DO NOT EDIT.
package time

import real "time"

const ANSIC = real.ANSIC
const April = real.April
const August = real.August
const DateOnly = real.DateOnly
const DateTime = real.DateTime
const December = real.December
const February = real.February
const Friday = real.Friday
const Hour = real.Hour
const January = real.January
const July = real.July
const June = real.June
const Kitchen = real.Kitchen
const Layout = real.Layout
const March = real.March
const May = real.May
const Microsecond = real.Microsecond
const Millisecond = real.Millisecond
const Minute = real.Minute
const Monday = real.Monday
const Nanosecond = real.Nanosecond
const November = real.November
const October = real.October
const RFC1123 = real.RFC1123
const RFC1123Z = real.RFC1123Z
const RFC3339 = real.RFC3339
const RFC3339Nano = real.RFC3339Nano
const RFC822 = real.RFC822
const RFC822Z = real.RFC822Z
const RFC850 = real.RFC850
const RubyDate = real.RubyDate
const Saturday = real.Saturday
const Second = real.Second
const September = real.September
const Stamp = real.Stamp
const StampMicro = real.StampMicro
const StampMilli = real.StampMilli
const StampNano = real.StampNano
const Sunday = real.Sunday
const Thursday = real.Thursday
const TimeOnly = real.TimeOnly
const Tuesday = real.Tuesday
const UnixDate = real.UnixDate
const Wednesday = real.Wednesday

type Duration = real.Duration
type Location = real.Location
type Month = real.Month
type ParseError = real.ParseError
type Time = real.Time
type Weekday = real.Weekday

var Date = real.Date
var FixedZone = real.FixedZone
var LoadLocation = real.LoadLocation
var LoadLocationFromTZData = real.LoadLocationFromTZData
var Local = real.Local
var Parse = real.Parse
var ParseDuration = real.ParseDuration
var ParseInLocation = real.ParseInLocation
var UTC = real.UTC
var Unix = real.Unix
var UnixMicro = real.UnixMicro
var UnixMilli = real.UnixMilli
