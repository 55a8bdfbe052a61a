// The proleptic Gregorian calendar from year lengths and month lengths.
module cal {
  import lib.* from "./lib"
  pure def leapYear(y: int): bool = fmod(y, 4) == 0 and (fmod(y, 100) != 0 or fmod(y, 400) == 0)
  pure def mlen(y: int, m: int): int =
    if (m == 2) (if (leapYear(y)) 29 else 28) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
  // days from 0000-01-01 to y-01-01: 365 per year plus one per leap year in between
  pure def before(y: int): int = 365 * y + fdiv(y + 3, 4) - fdiv(y + 99, 100) + fdiv(y + 399, 400)
  pure val UNIX0 = before(1970)
  pure def doy0(y: int, m: int): int = range(1, m).foldl(0, (d, k) => d + mlen(y, k))
  pure def days(y: int, m: int, d: int): int = before(y) + doy0(y, m) + d - 1 - UNIX0
  // inverse by search: estimate the year, then step to the one containing the day, then walk months
  pure def civil(dd: int): (int, int, int) = {
    pure val n = dd + UNIX0
    pure val y0 = fdiv(n * 400, 146097) - 1
    pure val y = range(0, 4).foldl(y0, (y, _k) => if (before(y + 1) <= n) y + 1 else y)
    pure val r = n - before(y)
    pure val md = range(1, 12).foldl((1, r), (a, m) => if (a._1 == m and a._2 >= mlen(y, m)) (m + 1, a._2 - mlen(y, m)) else a)
    (y, md._1, md._2 + 1)
  }
  pure def nextDay(c: (int, int, int)): (int, int, int) =
    if (c._3 < mlen(c._1, c._2)) (c._1, c._2, c._3 + 1)
    else if (c._2 < 12) (c._1, c._2 + 1, 1) else (c._1 + 1, 1, 1)

}
