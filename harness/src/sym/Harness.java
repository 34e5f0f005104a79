package sym;

import java.lang.annotation.*;

/** Marks a checking harness. */
@Retention(RetentionPolicy.RUNTIME)
@Target(ElementType.METHOD)
public @interface Harness {
  String property();

  /** "quick" runs in both tiers, "thorough" only in the thorough one, "quickonly" only in the quick one */
  String tier() default "quick";

  /** runtimes: jdk21, jdk8 or both separated by a comma */
  String mode() default "jdk21";

  String bounds() default "";

  String assumes() default "";
}
