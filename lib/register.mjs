import { install } from "./loader.mjs";
install();
