"""The elements that Leptos 0.7 (tachys 0.1.9) has constructors for in `tachys::svg` and `tachys::mathml`.

`a`, `script`, `style` and `title` are HTML as well, and as HTML they are documented.
"""
SVG = frozenset("""
animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend feColorMatrix feComponentTransfer feComposite
feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage
feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g hatch hatchpath image
line linearGradient marker mask metadata mpath path pattern polygon polyline radialGradient rect set stop svg switch symbol text textPath tspan use
view
""".split())

MATHML = frozenset("""
annotation maction math menclose merror mfenced mfrac mi mmultiscripts mn mo mover mpadded mphantom mprescripts mroot mrow ms mspace msqrt mstyle msub
msubsup msup mtable mtd mtext mtr munder munderover semantics
""".split())
