/* The operators of module Dec, for TLC. */
import java.math.*;
import java.util.*;
import tlc2.value.impl.*;

public class Dec {
   static final MathContext MC = new MathContext(40), WIDE = new MathContext(60), EXACT = new MathContext(160);
   static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
   static final BigDecimal TWO_PI = PI.multiply(BigDecimal.valueOf(2)), SMALL = new BigDecimal("1e-45");
   static BigDecimal num(Value v) {
      if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
      return new BigDecimal(((StringValue) v).val.toString());
   }
   /* What is computed from something other than a number, or has no value, is "nan"; comparisons with it are false. */
   static final Value NAN = new StringValue("nan");
   interface Of { BigDecimal get(); }
   static Value real(Of f) {
      try { return str(f.get()); } catch (ArithmeticException | NumberFormatException e) { return NAN; }
   }
   interface Is { boolean get(); }
   static BoolValue truth(Is f) {
      try { return bool(f.get()); } catch (NumberFormatException e) { return BoolValue.ValFalse; }
   }
   static Value str(BigDecimal b) {
      b = b.round(MC).stripTrailingZeros();
      return new StringValue(b.signum() == 0 ? "0" : b.toString());
   }
   static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
   public static Value Num(Value a) { return str(num(a)); }
   public static Value DAdd(Value a, Value b) { return real(() -> num(a).add(num(b), MC)); }
   public static Value DSub(Value a, Value b) { return real(() -> num(a).subtract(num(b), MC)); }
   public static Value DMul(Value a, Value b) { return real(() -> num(a).multiply(num(b))); }
   public static Value DDiv(Value a, Value b) { return real(() -> num(a).divide(num(b), MC)); }
   public static Value DSqrt(Value a) { return real(() -> num(a).sqrt(MC)); }
   public static BoolValue DLe(Value a, Value b) { return truth(() -> num(a).compareTo(num(b)) <= 0); }
   public static BoolValue DLt(Value a, Value b) { return truth(() -> num(a).compareTo(num(b)) < 0); }
   public static Value DFloor(Value a) { return IntValue.gen(num(a).setScale(0, RoundingMode.FLOOR).intValueExact()); }
   public static Value DInt(Value a) { return real(() -> num(a).setScale(0, RoundingMode.FLOOR)); }
   public static Value DFix(Value a, Value n) {
      try { return new StringValue(num(a).setScale(((IntValue) n).val, RoundingMode.HALF_UP).toPlainString()); } catch (NumberFormatException e) { return NAN; }
   }
   public static Value DPi() { return str(PI); }
   public static BoolValue DIsNum(Value a) {
      try { num(a); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
   }
   static BigDecimal reduce(BigDecimal x) {
      BigDecimal n = x.divide(TWO_PI, 0, RoundingMode.HALF_EVEN);
      return x.subtract(n.multiply(TWO_PI)).round(WIDE);
   }
   static BigDecimal series(BigDecimal first, BigDecimal x2, int k) {          /* alternating: sine or cosine */
      BigDecimal t = first, s = first;
      while (t.abs().compareTo(SMALL) > 0) {
         t = t.multiply(x2).negate().divide(BigDecimal.valueOf((long) k * (k + 1)), WIDE);
         s = s.add(t);
         k += 2;
      }
      return s;
   }
   static BigDecimal sin(BigDecimal a) { BigDecimal x = reduce(a); return series(x, x.multiply(x).round(WIDE), 2); }
   static BigDecimal cos(BigDecimal a) { BigDecimal x = reduce(a); return series(BigDecimal.ONE, x.multiply(x).round(WIDE), 1); }
   public static Value DSin(Value a) { return real(() -> sin(num(a))); }
   public static Value DCos(Value a) { return real(() -> cos(num(a))); }
   public static Value DAtan2(Value a, Value b) { return real(() -> atan2(num(a), num(b))); }
   static BigDecimal atan2(BigDecimal y, BigDecimal x) {
      if (y.signum() == 0) return x.signum() < 0 ? PI : BigDecimal.ZERO;
      BigDecimal r = x.multiply(x).add(y.multiply(y)).sqrt(WIDE), c = x.divide(r, WIDE), s = y.divide(r, WIDE);
      BigDecimal z = new BigDecimal(Math.atan2(s.doubleValue(), c.doubleValue()));
      for (int i = 0; i < 3; i++) {
         BigDecimal d = s.multiply(cos(z)).subtract(c.multiply(sin(z))).round(WIDE);
         z = z.add(d).add(d.pow(3).divide(BigDecimal.valueOf(6), WIDE)).round(WIDE);
      }
      return z;
   }
   static BigDecimal exp(BigDecimal x) {
      int n = 0;
      while (x.abs().compareTo(new BigDecimal("0.1")) > 0) { x = x.divide(BigDecimal.valueOf(2), WIDE); n++; }
      BigDecimal t = BigDecimal.ONE, s = t;
      for (int k = 1; t.abs().compareTo(new BigDecimal("1e-58")) > 0; k++) { t = t.multiply(x).divide(BigDecimal.valueOf(k), WIDE); s = s.add(t); }
      while (n-- > 0) s = s.multiply(s).round(WIDE);
      return s;
   }
   public static Value DExp(Value a) { return real(() -> exp(num(a))); }
   public static Value DLog(Value a) { return real(() -> log(num(a))); }
   static BigDecimal log(BigDecimal x) {
      if (x.signum() <= 0) throw new ArithmeticException();
      int e = x.precision() - x.scale();
      BigDecimal m = x.scaleByPowerOfTen(-e), z = new BigDecimal(Math.log(m.doubleValue()) + e * Math.log(10.));
      for (int i = 0; i < 3; i++) {
         BigDecimal q = x.multiply(exp(z.negate())).round(WIDE).subtract(BigDecimal.ONE);
         z = z.add(q).subtract(q.multiply(q).divide(BigDecimal.valueOf(2), WIDE)).round(WIDE);
      }
      return z;
   }
   static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
   public static Value DDot(Value a, Value b) {
      Value[] x = elems(a), y = elems(b);
      return real(() -> {
         BigDecimal s = BigDecimal.ZERO;
         for (int i = 0; i < x.length; i++) s = s.add(num(x[i]).multiply(num(y[i])), EXACT);
         return s;
      });
   }
   public static Value DPoly(Value a, Value x) {
      Value[] c = elems(a);
      return real(() -> {
         BigDecimal s = BigDecimal.ZERO, z = num(x);
         for (int i = c.length - 1; i >= 0; i--) s = s.multiply(z).add(num(c[i]), WIDE);
         return s;
      });
   }
}
